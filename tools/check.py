#!/usr/bin/env python3
"""check.py PROPERTY            one check of MANIFEST.json (VERIF_TIER, VERIF_SEED from the environment)
   check.py --setup             what setup_cmd does: builds the extractor and the harness
   check.py --proof UNIT        developer aid: run one unit, print what is not proved

A check does two things at once:
 * proof: every unit of the property is extracted anew from /repo's current source by tools/vx and given to
   Verus; each obligation of the property's functions has to be accepted;
 * replay harness: the real code of /repo is compiled next to a reference written from the contracts and run
   on generated inputs.  It supplies the failing input when an obligation fails, and is a bounded stand-in
   for the functions that could not be extracted.
"""
import fnmatch, glob, json, os, re, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, UNITS  # noqa

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
HARNESS_PROCS = 4

VERIFICATION_MSGS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
    "invariant not satisfied", "possible arithmetic", "possible division by zero", "decreases not satisfied",
    "unable to prove", "could not prove", "may fail to meet", "loop ensures not satisfied", "split assertion failure",
    "split precondition failure", "split postcondition failure", "cannot show invariant", "requires not satisfied",
    "failed precondition", "possible bit shift", "unreachable",
)


def log(*a):
    print("[check %6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def vx_bin():
    """The extractor, built when it is not there or older than its sources."""
    tgt = os.path.join(CACHE, "vx")
    b = os.path.join(tgt, "debug", "vx")
    srcs = glob.glob(os.path.join(VERIF, "tools/vx/src/*.rs")) + [os.path.join(VERIF, "tools/vx/Cargo.toml")]
    if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in srcs):
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
        env.pop("RUSTUP_TOOLCHAIN", None)
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/vx"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise SystemExit("extractor does not build:\n" + r.stdout[-3000:])
    return b


def harness_env():
    env = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "RUSTFLAGS"):
        env.pop(k, None)
    env.update(
        RUSTUP_TOOLCHAIN="nightly-2019-08-26", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", RUST_BACKTRACE="0", LIBCLANG_PATH="/usr/lib/llvm-14/lib",
        CXXFLAGS="-include cstdint -include system_error -w", CARGO_TARGET_DIR=os.path.join(CACHE, "target"))
    return env


def build_harness(bins):
    """Returns (ok, output). The registry dependencies come, compiled, from the repository's own build folder."""
    tgt = os.path.join(CACHE, "target", "debug")
    if not os.path.isdir(os.path.join(tgt, "deps")):
        tmp = tgt + ".new"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        src = "/opt/vp/target/debug"
        if os.path.isdir(src):
            subprocess.run(["cp", "-a"] + [os.path.join(src, d) for d in ("deps", "build", ".fingerprint")] + [tmp], check=False)
        shutil.rmtree(tgt, ignore_errors=True)
        os.rename(tmp, tgt)
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    saved = open(lock).read()
    cmd = ["cargo", "build", "--offline", "-q"]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=harness_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if open(lock).read() != saved:
        open(lock, "w").write(saved)
    return r.returncode == 0, r.stdout


class Harness(threading.Thread):
    def __init__(self, prop, bin_, secs, outdir):
        super().__init__()
        self.prop, self.bin, self.secs, self.outdir = prop, bin_, secs, outdir
        self.result, self.error = None, None

    def run(self):
        try:
            ok, out = build_harness([self.bin])
            if not ok:
                self.error = "harness does not build against the current tree:\n" + out[-6000:]
                return
            log("harness built")
            exe = os.path.join(CACHE, "target", "debug", self.bin)
            scratch = os.path.join(CACHE, "scratch", self.prop)
            shutil.rmtree(scratch, ignore_errors=True)
            procs = []
            try:
                for i in range(HARNESS_PROCS):
                    d, o = os.path.join(scratch, str(i)), os.path.join(scratch, "out%d" % i)
                    os.makedirs(d), os.makedirs(o)
                    fo, fe = open(os.path.join(o, "stdout"), "w"), open(os.path.join(o, "stderr"), "w")
                    procs.append((subprocess.Popen([exe, self.prop, "--seed", str(SEED * 64 + i), "--secs", str(self.secs), "--out", o],
                                                   cwd=d, env=harness_env(), stdout=fo, stderr=fe), o))
                end = time.time() + self.secs * 3 + 120
                for p, o in procs:
                    try:
                        rc = p.wait(max(1, end - time.time()))
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        rc = "timeout"
                    out = open(os.path.join(o, "stdout"), errors="replace").read()
                    lines = [l for l in out.splitlines() if l.startswith("RESULT ")]
                    if lines and rc != "timeout":
                        self.merge(json.loads(lines[-1][7:]))
                    else:
                        self.crash(rc, o)
            finally:
                for p, _ in procs:
                    if p.poll() is None:
                        p.kill()
                shutil.rmtree(scratch, ignore_errors=True)
            log("harness done")
        except Exception as e:  # noqa
            self.error = "harness: %r" % e

    def merge(self, r):
        if self.result is None:
            self.result = r
            return
        m = self.result
        m["evaluations"] += r["evaluations"]
        m["distinct_nontrivial"] += r["distinct_nontrivial"]
        m["rule"] = m["rule"] or r["rule"]
        m["samples"] = (m["samples"] + r["samples"])[:6]
        have = {v["key"] for v in m["violations"]}
        m["violations"] += [v for v in r["violations"] if v["key"] not in have]

    def crash(self, rc, o):
        """The process under test died or hung: the input it was on is in the CASE file."""
        f = os.path.join(o, "CASE")
        case = open(f, errors="replace").read() if os.path.exists(f) else ""
        err = open(os.path.join(o, "stderr"), errors="replace").read()
        self.merge({"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "",
                    "violations": [{"key": "crash", "what": "the code under test ended the process (%s)" % rc,
                                    "replay": {"case": case, "stderr": err[-2000:]}}]})


# ------------------------------------------------------------------ proving
def fn_of_line(text_lines, n):
    """Name of the function whose text holds line n (1-based) of the generated file."""
    for i in range(min(n, len(text_lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub |open |closed |broadcast |uninterp |axiom |const )*(?:proof |spec |exec )?fn ([A-Za-z0-9_]+)", text_lines[i])
        if m:
            return m.group(1)
    return None


class Proof:
    """One unit: extraction, Verus, classification of what it reports."""

    def __init__(self, unit, outdir):
        self.unit, self.outdir = unit, outdir
        self.degraded = {}     # key -> reason
        self.failed = {}       # key or lemma name -> list of messages
        self.unknown = {}      # resource-outs
        self.functions = []
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.broken = None     # the unit as a whole could not be checked
        self.vacuous = []
        self.vac_checked = 0
        self.runs = 0
        self.breakdown = []
        self.cmd = ""

    def gen(self, out, extra=()):
        u = os.path.join(VERIF, "units", self.unit + ".vrs")
        sigs = os.path.join(VERIF, "units", self.unit + ".sigs")
        cmd = [vx_bin(), "gen", "--unit", u, "--repo", REPO, "--out", out + ".rs", "--map", out + ".json", "--sigs", sigs,
               "--degrade", ",".join(sorted(self.degraded))] + list(extra)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            self.broken = "extraction failed: " + r.stdout[-2000:]
            return None
        return json.load(open(out + ".json"))

    def verus(self, out, rlimit, threads):
        cmd = ["verus", os.path.basename(out) + ".rs", "--num-threads", str(threads), "--output-json", "--time-expanded",
               "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "3", "--no-report-long-running"]
        self.cmd = "tools/vx gen --unit units/%s.vrs --repo /repo ... && %s" % (self.unit, " ".join(cmd))
        self.runs += 1
        env = dict(os.environ)
        env.pop("RUSTUP_TOOLCHAIN", None)
        try:
            r = subprocess.run(cmd, cwd=os.path.dirname(out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=env, timeout=600)
        except subprocess.TimeoutExpired:
            return None, [{"level": "error", "message": "verus timed out", "spans": []}]
        try:
            res = json.loads(r.stdout)
        except ValueError:
            res = None
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
            elif l.strip():
                diags.append({"level": "note", "message": l, "spans": []})
        if res is None and not any(d["level"] == "error" for d in diags):
            diags.append({"level": "error", "message": "verus gave no result: " + r.stderr[-800:], "spans": []})
        return res, diags

    def locate(self, d, fns, lines):
        """The extracted function (key) or the plain function (name) a diagnostic is about."""
        best = None
        for s in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
            n = s["line_start"]
            for f in fns:
                if f["start"] <= n <= f["end"]:
                    return f["key"], True
            if best is None:
                best = fn_of_line(lines, n)
        return best, False

    def run(self, threads=8):
        out = os.path.join(self.outdir, self.unit)
        rlimit = UNITS.get(self.unit, {}).get("rlimit", 30)
        for attempt in range(8):
            m = self.gen(out)
            if m is None:
                return
            self.functions = m["functions"]
            fns = [f for f in m["functions"] if f["status"] in ("ok",)]
            lines = open(out + ".rs").read().splitlines()
            res, diags = self.verus(out, rlimit, threads)
            errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            self.failed, self.unknown = {}, {}
            hard = []
            for d in errs:
                msg = d["message"]
                key, extracted = self.locate(d, fns, lines)
                if "rlimit" in msg.lower() or "resource limit" in msg.lower():
                    self.unknown.setdefault(key, []).append(d)
                elif any(v in msg for v in VERIFICATION_MSGS):
                    self.failed.setdefault(key, []).append(d)
                else:
                    hard.append((key, extracted, d))
            if hard:
                new = {k: "the verifier rejects its text: " + d["message"] for k, ex, d in hard if ex and k not in self.degraded}
                if not new:
                    # the error lies in the unit's own text: a type or signature it mentions has changed
                    self.broken = "; ".join(sorted(set(d["message"] for _, _, d in hard)))[:1500]
                    self.failed, self.unknown = {}, {}
                    return
                self.degraded.update(new)
                continue
            if m["problems"] and False:
                pass
            if self.unknown and attempt < 6:
                if rlimit < 200:
                    rlimit = rlimit * 4
                    continue
                # the solver does not decide these: not proved, not refuted
                self.degraded.update({k: "the solver gave up (resource limit)" for k in self.unknown
                                      if any(f["key"] == k for f in fns)})
            if res is None:
                self.broken = "; ".join(d["message"] for d in errs)[:1500]
                return
            vr = res["verification-results"]
            self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
            t = res.get("times-ms", {}).get("smt", {})
            self.smt_ms = t.get("total", 0)
            self.breakdown = [b for mod in t.get("smt-run-module-times", []) for b in mod.get("function-breakdown", [])]
            return
        self.broken = "did not settle"

    def vacuity(self, threads=4):
        """Each precondition has to be satisfiable: with `assert(false)` as the body Verus has to fail."""
        if self.broken:
            return
        out = os.path.join(self.outdir, self.unit + "_vac")
        m = self.gen(out, ["--vacuity"])
        if m is None:
            return
        want = [f for f in m["functions"] if f["requires"] and f["status"] == "ok"]
        if not want:
            return
        res, diags = self.verus(out, 20, threads)
        lines = open(out + ".rs").read().splitlines()
        hit = set()
        for d in diags:
            if d["level"] == "error" and "assertion failed" in d["message"]:
                for s in d["spans"]:
                    for f in want:
                        if f["start"] <= s["line_start"] <= f["end"]:
                            hit.add(f["key"])
        self.vac_checked = len(want)
        self.vacuous = sorted(f["key"] for f in want if f["key"] not in hit)


def diag_text(d):
    s = d.get("rendered") or d["message"]
    return s.strip()[:3000]


# ------------------------------------------------------------------ the check
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    work = os.path.join(CACHE, "work", prop)
    rep = os.path.join(VERIF, "evidence", "replay", prop)
    for d in (work, rep):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    known = known_findings(prop)
    h = None
    if cfg.get("harness"):
        secs = cfg.get("secs", 6) * (1 if TIER == "quick" else 20)
        h = Harness(prop, cfg["harness"], secs, rep)
        h.start()
    proofs = []
    vx_bin()
    for unit in cfg.get("units", {}):
        p = Proof(unit, work)
        p.run()
        if TIER == "thorough" or cfg.get("vacuity_quick", True):
            p.vacuity()
        log("unit", unit, "verified", p.verified, "errors", p.errors, "broken" if p.broken else "")
        proofs.append(p)
    if h:
        h.join()
    hr = (h.result if h else None) or {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": [], "rule": ""}

    violations = []   # (key, what, payload, has_input)
    for v in hr["violations"]:
        violations.append((v["key"], v["what"], v.get("replay"), True))
    if h and h.error:
        log(h.error)

    obligations, under, notproved, trusted, failed_ob = 0, [], [], set(), []
    discharged = 0
    for p in proofs:
        pats = cfg["units"][p.unit]
        mine = lambda k: k is not None and any(fnmatch.fnmatchcase(k, g) for g in pats)
        fns = [f for f in p.functions if mine(f["key"])]
        names = {f["key"]: f for f in p.functions}
        for f in p.functions:
            if f["status"] == "assumed":
                trusted.add("contract of %s (proved by the unit that owns it)" % f["key"])
        for f in fns:
            if f["status"] == "assumed":
                continue
            entry = {"function": f["key"], "file": f["file"], "line": f["line"], "unit": p.unit}
            if p.broken:
                notproved.append(dict(entry, reason="unit not checkable: " + p.broken[:300]))
            elif f["status"] != "ok" or f["key"] in p.degraded:
                notproved.append(dict(entry, reason=f["reason"] or p.degraded.get(f["key"], f["status"])))
            else:
                under.append(entry)
        # Verus reports one bundle of obligations per function: contract, callee preconditions, invariants,
        # termination, overflow.  Lemmas of the unit count as well.
        if not p.broken:
            ext_names = {}
            for f in p.functions:
                if f["status"] in ("ok",):
                    ext_names.setdefault(f["name"], f["key"])
            for b in p.breakdown:
                if b.get("mode:") == "spec":
                    continue
                obligations += 1
                discharged += bool(b["success"])
        for k, ds in p.failed.items():
            if mine(k) or (k is not None and k not in names and any(fnmatch.fnmatchcase("lemma:" + k, g) for g in pats)):
                ob = "%s: %s" % (k, ds[0]["message"])
                failed_ob.append(ob)
                violations.append(("proof:" + k, "failed obligation " + ob,
                                   {"unit": p.unit, "function": k, "where": "%s:%s" % (names[k]["file"], names[k]["line"]) if k in names else "lemma of units/%s.vrs" % p.unit,
                                    "verifier_output": [diag_text(d) for d in ds]}, False))
        for k in p.vacuous:
            if mine(k):
                log("VACUOUS precondition:", k)
                notproved.append({"function": k, "unit": p.unit, "reason": "its precondition is unsatisfiable"})

    real = [v for v in violations if not any(fnmatch.fnmatchcase(v[0], k) for k, _ in known)]
    with_input = [v for v in real if v[3]]
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for n in notproved:
        log("not proved on this tree (bounded stand-in only):", n["function"], "-", n["reason"][:300])
    if real:
        path = os.path.join(rep, "violation.json")
        json.dump({"property": prop, "seed": SEED, "tier": TIER,
                   "failing_inputs": [{"key": v[0], "what": v[1], "input": v[2]} for v in with_input],
                   "failed_obligations": [{"key": v[0], "what": v[1], "detail": v[2]} for v in real if not v[3]]},
                  open(path, "w"), indent=1)
        for v in real[:10]:
            log("violated:", v[1])
            if not v[3]:
                for t in v[2]["verifier_output"][:2]:
                    print(t, file=sys.stderr)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if with_input else " no-failing-input-found"))

    backends = "Verus 0.2026.09.13 (Z3 4.12)"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " ; ".join(p.cmd for p in proofs) or "none",
        "trusted_base": sorted(trusted) + cfg.get("trusted", []) + COMMON_TRUST,
        "backend": backends,
        "functions_under_contract": under,
        "functions_not_proved_on_this_tree": notproved,
        "failed_obligations": failed_ob,
        "solver_ms": sum(p.smt_ms for p in proofs),
        "verus_runs": sum(p.runs for p in proofs),
        "preconditions_checked_satisfiable": sum(p.vac_checked for p in proofs),
        "bounded_stand_in": {"evaluations": hr["evaluations"], "distinct_nontrivial": hr["distinct_nontrivial"],
                             "rule": hr.get("rule", ""), "samples": hr.get("samples", [])[:3],
                             "note": "runs the real code; never counted as proved", "error": h.error if h else None},
        "evaluations": hr["evaluations"], "distinct_nontrivial": hr["distinct_nontrivial"],
        "rule": hr.get("rule", ""), "samples": hr.get("samples", [])[:3],
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions under contract, %d not proved, harness %d cases, %.1f s" % (
        prop, discharged, obligations, len(under), len(notproved), hr["evaluations"], time.time() - T0))
    shutil.rmtree(work, ignore_errors=True) if not os.environ.get("VX_KEEP") else None
    sys.exit(1 if real else 0)


COMMON_TRUST = [
    "tools/vx: the mechanical extraction (DESIGN.md, 'What extraction drops')",
    "Verus, vstd and Z3",
    "the assumed contracts of external types in units/base.vrs (Bytes, BigUint, maps, iterators)",
]


def proof_dev(unit):
    out = os.path.join(CACHE, "work", "dev")
    os.makedirs(out, exist_ok=True)
    p = Proof(unit, out)
    p.run()
    p.vacuity()
    for f in p.functions:
        if f["status"] not in ("ok", "assumed"):
            print("!!", f["key"], f["status"], f["reason"])
    for k, v in p.degraded.items():
        print("degraded", k, v)
    for k, ds in list(p.failed.items()) + list(p.unknown.items()):
        print("FAILED", k)
        for d in ds:
            print(diag_text(d))
    print("broken", p.broken)
    print("vacuous", p.vacuous)
    print("verified", p.verified, "errors", p.errors, "smt ms", p.smt_ms)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        raise SystemExit(__doc__)
    if sys.argv[1] == "--setup":
        vx_bin()
        ok, out = build_harness(sorted({c["harness"] for c in PROPS.values() if c.get("harness")}))
        print(out[-2000:])
        # a harness that does not build is reported by the checks that need it
        sys.exit(0)
    elif sys.argv[1] == "--proof":
        proof_dev(sys.argv[2])
    else:
        main()
