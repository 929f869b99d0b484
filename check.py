#!/usr/bin/env python3
"""Decides one property of dync: python3 check.py C01

Regenerates the encoding of the harnesses of that property and of the dync code they reach from
/repo's working tree (Kani), links it with an allocator model, lets CBMC decide every assertion of
every harness, and replays each counterexample against natively built dync before reporting it.

exit 0: held within the bounds; 1: VIOLATION; 2: no verdict (build, timeout, bound, unreproduced).
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "tools"))
from ir import Ir
REPO = "/repo"
KANI = "/root/.kani/kani-0.68.0"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
T0 = time.time()

CBMC = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
        "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16"]
# Classes of CBMC/Kani checks whose failure is undefined behaviour (never an orderly panic).
UB = {"pointer_dereference", "safety_check", "precondition_instance", "pointer_arithmetic", "assume",
      "unreachable", "array_bounds", "pointer", "memory-leak", "pointer_primitives", "enum-range-check",
      "precondition", "alignment"}


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = KANI + "/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run(cmd, timeout, cwd=None, extra_env=None, mem_gb=None, out=None, exe=None):
    """-> (rc or None on timeout, output)"""
    e = env()
    e.update(extra_env or {})

    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    f = open(out, "w") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, executable=exe, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=pre, text=True,
                         errors="replace")
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        rc, o = None, ""
    if out:
        f.close()
    return rc, o or ""


def forget(d):
    """What was compiled from /repo and from the harnesses, whatever the times of the files, is compiled again."""
    for p, ds, _ in os.walk(d):
        if os.path.basename(p) in ("build", ".fingerprint"):
            for x in ds:
                if re.match(r"(dync|vph|uw)([-_]|$)", x): shutil.rmtree(os.path.join(p, x))
            ds[:] = []
        elif p.count("/") - d.count("/") > 4: ds[:] = []


class Check:
    def __init__(self, pid, tier, only=None):
        self.pid, self.tier, self.only = pid, tier, only
        cfg = json.load(open(os.path.join(HERE, "vp", "config.json")))
        self.all = cfg
        self.cfg = dict(cfg["default"], **cfg["checks"].get(pid, {}))
        self.budget = self.cfg["budget_s"][tier]
        self.dir = os.path.join(BUILD, pid + "-" + tier)
        self.problems, self.beyond = [], []
        self.violations = []
        self.known = []
        self.lock = threading.Lock()

    def left(self):
        return self.budget - (time.time() - T0)

    def features(self):
        f = [self.pid.lower()] + self.cfg.get("features", [])
        if self.tier == "thorough":
            f.append("thorough")
        return ",".join(f)

    def vfeatures(self):
        return ",".join("vph/" + x for x in self.features().split(","))

    # -- encoding ------------------------------------------------------------------------------
    def encode(self):
        tgt = os.path.join(self.dir, "kani")
        t = time.time()
        cmd = ["cargo-kani", "kani", "--only-codegen", "-Z", "c-ffi", "-Z", "stubbing", "-Z", "unstable-options",
               "--no-assertion-reach-checks", "--features", self.features()]
        for n in (self.only or "").split("|"):
            if re.fullmatch(r"\w+", n):
                cmd += ["--harness", n]
        rc, o = run(cmd, min(self.left(), 600), cwd=HARNESS, exe=KANI + "/bin/kani-driver",
                    extra_env={"CARGO_TARGET_DIR": tgt,
                               "PATH": ":".join([HERE + "/tools/nolink", KANI + "/bin", KANI + "/toolchain/bin",
                                                 os.environ.get("PATH", "")])})
        self.codegen_s = time.time() - t
        meta = [m for m in glob.glob(os.path.join(tgt, "kani", "*", "debug", "build", "vph", "*", "out",
                                                  "*.kani-metadata.json"))]
        if rc != 0 or not meta:
            errs = [l for l in o.splitlines() if l.startswith("error")]
            log("\n".join(o.splitlines()[-60:]))
            self.problems.append("the harnesses do not compile against /repo: %s" % "; ".join(errs[:5]))
            return []
        hs = []
        for m in meta:
            for h in json.load(open(m))["proof_harnesses"]:
                hs.append(dict(name=h["pretty_name"].split("::")[-1], sym=h["mangled_name"], goto=h["goto_file"],
                               unwind=h["attributes"]["unwind_value"] or 20))
        seen = {}
        for h in hs:
            seen[h["name"]] = h
        hs = [h for h in seen.values() if not self.only or re.fullmatch(self.only, h["name"])]
        costs = {}
        try:
            costs = json.load(open(os.path.join(HERE, "vp", "costs.json")))
        except OSError:
            pass
        hs.sort(key=lambda h: -costs.get(h["name"], 60))
        return hs

    # -- one harness ---------------------------------------------------------------------------
    def solve(self, h, mem=None):
        w = os.path.join(self.dir, "h", h["name"])
        os.makedirs(w, exist_ok=True)
        a, b = os.path.join(w, "linked.out"), os.path.join(w, "final.out")
        t = time.time()
        rc, o = run(["goto-cc", h["goto"], os.path.join(HERE, "model", "alloc_model.c"), "--function", h["sym"],
                     "-o", a], self.left())
        if rc == 0:
            rc, o = run(["goto-instrument", "--add-library", "--no-malloc-may-fail",
                         "--generate-function-body-options", "assert-false-assume-false",
                         "--generate-function-body", ".*", "--drop-unused-functions",
                         "--ensure-one-backedge-per-target", a, b], self.left())
        if rc != 0:
            return dict(h, verdict="error", why="linking failed: " + o[-300:], results=[])
        h = dict(h, final=b, link_s=time.time() - t)
        os.unlink(a)
        unwind = h["unwind"]
        for attempt in range(3):
            r = self.cbmc(h, w, unwind, mem)
            if r["verdict"] == "unwind" and attempt < 2:
                unwind *= 3
                continue
            return r
        return r

    def room(self):
        """Waits, while other harnesses are being solved, for memory to start one more."""
        for _ in range(90):
            try:
                free = int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1)) >> 20
            except (OSError, AttributeError):
                return
            if free >= 7 or self.left() < 60:
                return
            time.sleep(1)

    def cbmc(self, h, w, unwind, mem=None):
        out = os.path.join(w, "cbmc.txt")
        self.room()
        t = time.time()
        rc, _ = run(["cbmc"] + CBMC + ["--unwind", str(unwind), "--sat-solver", self.cfg["solver"], "--slice-formula",
                                       "--verbosity", "8", h["final"]],
                    min(self.left() - 5, self.cfg["harness_s"][self.tier]), mem_gb=mem or self.cfg["mem_gb"], out=out)
        h = dict(h, cbmc_s=time.time() - t, unwind_used=unwind)
        if rc is None:
            return dict(h, verdict="error", limit=True, why="no verdict within the time limit", results=[])
        txt = open(out, errors="replace").read()
        results, fil, fun = [], "", ""
        for l in txt.splitlines():
            m = re.match(r"^\[(.*)\] line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
            if m:
                prop = m.group(1)
                cls = re.sub(r"\.\d+$", "", prop).split(".")[-1]
                results.append(dict(prop=prop, cls=cls, file=fil, fun=fun, line=int(m.group(2)), desc=m.group(3),
                                    status=m.group(4)))
                continue
            m = re.match(r"^(\S.*) function (.*)$", l)
            if m:
                fil, fun = m.group(1), m.group(2)
                continue
            m = re.match(r"^\[(.*)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
            if m:
                prop = m.group(1)
                cls = re.sub(r"\.\d+$", "", prop).split(".")[-1]
                results.append(dict(prop=prop, cls=cls, file=fil, fun=fun, line=0, desc=m.group(2), status=m.group(3)))
        if rc not in (0, 10) or not results:
            return dict(h, verdict="error", limit=True, why="cbmc exit %s: %s" % (rc, txt[-300:]), results=[])
        num = lambda p: sum(float(x) for x in re.findall(p, txt))
        h.update(symex_s=num(r"Runtime Symex: ([\d.e+-]+)s"), solver_s=num(r"Runtime Solver: ([\d.e+-]+)s"),
                 queries=len(re.findall(r"Runtime Solver:", txt)),
                 vccs=int(num(r"Generated (\d+) VCC")), vccs_left=int(num(r"VCC\(s\), (\d+) remaining")),
                 vars=max([int(x) for x in re.findall(r"^(\d+) variables", txt, re.M)] or [0]))
        bad = [r for r in results if r["status"] != "SUCCESS"]
        if any(r["status"] in ("UNKNOWN", "ERROR") for r in bad):
            return dict(h, verdict="error", limit=True, why="solver left checks undecided", results=results)
        wit = [r for r in results if r["desc"].startswith("VP-WITNESS")]
        missing = [r for r in wit if r["status"] == "SUCCESS"]
        bad = [r for r in bad if r["cls"] != "cover"]
        unw = [r for r in bad if r["cls"] in ("unwind", "recursion")]
        uns = [r for r in bad if r["cls"] == "unsupported_construct" or "undefined function" in r["desc"]]
        rest = [r for r in bad if r not in unw and r not in uns]
        must_panic = h["name"].endswith("_mp")
        cand = []
        if must_panic:
            panics = [r for r in rest if r["cls"] in ("assertion", "arithmetic_overflow")
                      and not r["desc"].startswith("VP:") and "unsafe precondition" not in r["desc"]]
            cand = [r for r in rest if r not in panics]
            # An arithmetic overflow inside dync is a panic only with overflow checks on: whether it also
            # is one in the release profile is settled by the replay.
            for r in panics:
                if "with overflow" in r["desc"] and "/repo/src" in r["file"]:
                    cand.append(dict(r, maybe=True))
            if not panics and not cand and not unw:
                return dict(h, verdict="error", why="vacuous: no panic is reachable", results=results)
        else:
            cand = rest
            if not wit:
                return dict(h, verdict="error", why="harness without a reachability witness", results=results)
        if cand:
            return dict(h, verdict="fail", cand=cand, results=results)
        if uns:
            return dict(h, verdict="error", limit=True, why="reached code the encoding does not support: "
                        + uns[0]["desc"][:160], results=results)
        if unw:
            return dict(h, verdict="unwind", limit=True, why="unwinding bound %d too small: %s in %s"
                        % (unwind, unw[0]["desc"], unw[0]["fun"]), results=results)
        if missing:
            return dict(h, verdict="error", why="vacuous: witness unreachable at line %s"
                        % [m["line"] for m in missing], results=results)
        return dict(h, verdict="pass", results=results)

    # -- replay --------------------------------------------------------------------------------
    def native(self, profile):
        """Builds the replay binary; -> path or None."""
        with self.lock:
            if not hasattr(self, "bins"):
                self.bins = {}
            if profile in self.bins:
                return self.bins[profile]
            tgt = os.path.join(self.dir, "native-" + profile)
            cmd = ["cargo"]
            ee = {"CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "stable"}
            sub = "debug"
            if profile == "asan":
                ee["RUSTUP_TOOLCHAIN"] = "nightly"
                ee["RUSTFLAGS"] = "-Zsanitizer=address"
            cmd += ["build", "--features", self.vfeatures()]
            if profile == "asan":
                cmd += ["--target", "x86_64-unknown-linux-gnu"]
                sub = "x86_64-unknown-linux-gnu/debug"
            if profile == "release":
                cmd += ["--release"]
                sub = "release"
            if profile == "checked":
                # the profile of a plain `cargo test`: debug assertions and overflow checks on
                ee["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "true"
                ee["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
            rc, o = run(cmd, max(60, self.left()), cwd=os.path.join(HERE, "replay"), extra_env=ee)
            p = os.path.join(tgt, sub, "replay")
            if rc != 0 or not os.path.exists(p):
                log("replay build (%s) failed:\n%s" % (profile, o[-2000:]))
                p = None
            self.bins[profile] = p
            return p

    def replay(self, f, must_panic):
        """-> (reproduced, notes). Runs the counterexample in `f` on natively compiled dync."""
        notes = []
        hit = False
        for prof in ["checked", "release", "asan", "miri"]:
            if hit and prof in ("asan", "miri"):
                break
            ee = {"RUST_BACKTRACE": "0"}
            if prof == "miri":
                ee.update(CARGO_TARGET_DIR=os.path.join(self.dir, "native-miri"), RUSTUP_TOOLCHAIN="nightly",
                          MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
                cmd = ["cargo", "miri", "run", "-q", "--features", self.vfeatures(), "--", f]
            else:
                b = self.native(prof)
                if not b:
                    continue
                cmd = [b, f]
            rc, o = run(cmd, 240 if prof == "miri" else 60, cwd=os.path.join(HERE, "replay"), extra_env=ee, mem_gb=None if prof in ("asan", "miri") else 12)
            last = [l for l in o.splitlines() if l.strip()][-4:]
            if "VP-ASSUME-FAILED" in o:
                res = "not an execution"
            elif "VP-CHECK-FAILED" in o:
                res = "reproduced"
            elif "Undefined Behavior" in o or "AddressSanitizer" in o or (rc is not None and rc < 0):
                res = "reproduced"
            elif rc == 101 and not must_panic:
                res = "reproduced"
            elif rc is None:
                res = "timeout"
            else:
                res = "no"
            notes.append("%s: %s (exit %s) %s" % (prof, res, rc, " | ".join(last)[:300]))
            if res == "reproduced":
                hit = True
        return hit, notes

    def trace(self, h, r, slim):
        """The nondeterministic values of a counterexample, in call order. The slim trace leaves out what the
        failing check does not depend on (such values are replayed as 0); the full one needs much more memory."""
        w = os.path.join(self.dir, "h", h["name"])
        out = os.path.join(w, "trace.txt")
        rc, _ = run(["cbmc"] + CBMC + ["--unwind", str(h["unwind_used"]), "--sat-solver", self.cfg["solver"]]
                    + (["--slice-formula"] if slim else [])
                    + ["--trace", "--trace-show-function-calls", "--property", r["prop"], h["final"]],
                    max(60, min(self.left() - 20, 400)), mem_gb=12, out=out)
        vals, on, end = [], False, False
        for l in open(out, errors="replace"):
            if l.startswith("Trace for "):
                on = True
            elif l.startswith("Violated property"):
                end = on
            elif on and l.startswith("** "):
                break
            if on and not end:
                if l.startswith("#### Function call: ") and re.match(r"#### Function call: \w*vp_record\(", l):
                    vals.append(0)
                m = vals and re.match(r"  goto_symex\$\$return_value\$\$\w*(?:any_u(?:8|16|32|64)|vp_record)=.* \(([01 ]+)\)$", l)
                if m:
                    vals[-1] = int(m.group(1).replace(" ", ""), 2)
        os.unlink(out)
        return vals if rc == 10 and end else None

    def judge(self, h):
        mp = h["name"].endswith("_mp")
        cand = h["cand"]
        # The statement's own assertions first, then undefined behaviour, then panics.
        cand.sort(key=lambda r: (0 if r["desc"].startswith("VP:") else 1 if r["cls"] in UB else 2, r["prop"]))
        picked, seen = [], set()
        for r in cand:
            k = (r["desc"], r["line"], r["fun"])
            if k not in seen:
                seen.add(k)
                picked.append(r)
        done, why = [], []
        for r in picked[:6]:
            if self.left() < 30 and done:
                break
            hit = None
            for slim in (True, False):
                vals = self.trace(h, r, slim)
                if vals is not None:
                    hit, f, notes = self.reproduce(h, r, vals, mp)
                    if hit or r.get("maybe"):
                        break
            if hit is None:
                why.append("no trace for %s" % r["prop"])
                continue
            if hit:
                done.append((r, f))
                if not self.is_known(h, r):
                    break
            elif r.get("maybe"):
                pass
            else:
                why.append("%s: %s does not reproduce natively (%s)" % (h["name"], r["desc"][:120], "; ".join(notes)[:600]))
        return done, why

    def reproduce(self, h, r, vals, mp):
        d = os.path.join(HERE, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (h["name"], hashlib.sha1(r["prop"].encode()).hexdigest()[:8]))
        body = dict(property=self.pid, harness=h["name"], features=self.features(), failed=r["desc"], check=r["prop"],
                    at="%s:%s" % (r["file"], r["line"]), values=vals)
        json.dump(body, open(f, "w"), indent=1)
        hit, notes = self.replay(f, mp)
        body["replays"] = notes
        json.dump(body, open(f, "w"), indent=1)
        return hit, f, notes

    def is_known(self, h, r):
        try:
            k = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
        except OSError:
            return None
        for e in k:
            if e["property"] == self.pid and e["harness"] == h["name"] and e["failed"] == r["desc"]:
                return e
        return None

    # -- all -----------------------------------------------------------------------------------
    def main(self):
        shutil.rmtree(os.path.join(self.dir, "h"), ignore_errors=True)
        shutil.rmtree(os.path.join(HERE, "replays", self.pid), ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        forget(self.dir)
        ir = Ir(self, HERE, run, log) if self.cfg.get("ir") else None
        if ir: ir.start()
        hs = self.encode() if self.cfg.get("kani", True) else []
        log("[%s] %d harnesses encoded in %.0f s" % (self.pid, len(hs), getattr(self, "codegen_s", 0)))
        if not hs and not self.problems and not ir:
            self.problems.append("no harness")
        res = []
        with concurrent.futures.ThreadPoolExecutor(self.cfg["jobs"]) as ex:
            for r in ex.map(self.solve_safe, hs):
                res.append(r)
                log("  %-34s %-6s %5.1f s  link %.1f symex %.1f solver %.1f  checks %d  %s" % (
                    r["name"], r["verdict"], r.get("cbmc_s", 0), r.get("link_s", 0), r.get("symex_s", 0), r.get("solver_s", 0),
                    len(r["results"]), "" if r["verdict"] == "pass" else r.get("why", "")))
        for i, r in enumerate(res):
            if re.search("out of memory|cbmc exit -", r.get("why", "")) and self.left() > 240:       # once more, alone
                res[i] = self.solve_safe({k: v for k, v in r.items() if k not in ("verdict", "why", "results", "limit")}, 20)
                log("  %-34s %-6s %5.1f s  alone  %s" % (r["name"], res[i]["verdict"], res[i].get("cbmc_s", 0), res[i].get("why", "")))
        for r in res:
            if r["verdict"] == "fail":
                for c in r["cand"][:8]:
                    log("    %s: %s [%s] %s:%s" % (r["name"], c["desc"][:140], c["cls"], c["file"], c["line"]))
                done, why = self.judge(r)
                for c, f in done:
                    k = self.is_known(r, c)
                    if k:
                        self.known.append("%s (%s)" % (k["what"], c["desc"]))
                    else:
                        self.violations.append((r, c, f))
                if not done and not why and r["name"].endswith("_mp"):
                    r["verdict"] = "pass"   # only overflows which panic natively too
                elif not done:
                    self.problems += why
                if self.violations: break        # one that has been reproduced settles the verdict
            elif r["verdict"] != "pass" and not r.get("limit"):
                self.problems.append("%s: %s" % (r["name"], r["why"]))
        # What does not fit into the limits on time, memory and unwinding is not explored; most of it must be.
        beyond = ["%s: %s" % (r["name"], r["why"]) for r in res if r.get("limit")]
        if len(beyond) > max(1, len(res) // 4): self.problems += beyond
        else:
            self.beyond = beyond
            for p in beyond: log("NOT-EXPLORED: " + p)
        if ir:
            if self.violations: log("  the IR executor is not needed for the verdict")
            elif self.left() > 120: ir.main(self.only)
            else: ir.problems.append("no time was left for the IR executor")
            if self.cfg["ir"].get("supplement"):
                # What this engine adds is beyond the bounds that the first engine has decided already.
                for p in ir.problems: log("NOT-EXPLORED: " + p)
            else: self.problems += ir.problems
            for r, x, f in ir.violations:
                self.violations.append((dict(name=r["harness"]), dict(desc=x["what"]), f))
        self.evidence(res, ir)
        for k in sorted(set(self.known)):
            log("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for p in self.problems:
            log("NO-VERDICT: " + p)
        for r, c, f in self.violations:
            log("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(f, HERE)))
            log("  %s: %s" % (r["name"], c["desc"]))
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(os.path.join(self.dir, "h"), ignore_errors=True)
        if self.violations:
            return 1
        return 2 if self.problems else 0

    def solve_safe(self, h, mem=None):
        try:
            return self.solve(h, mem)
        except Exception as e:  # a broken check must not look like a verdict
            return dict(h, verdict="error", why="driver: %r" % e, results=[])

    def evidence(self, res, ir):
        funs = set()
        n = ok = 0
        for r in res:
            for c in r["results"]:
                if c["cls"] == "cover":
                    continue
                n += 1
                ok += c["status"] == "SUCCESS"
                if "/repo/" in c["file"] and c["fun"]:
                    funs.add(c["fun"])
        passed = [r for r in res if r["verdict"] == "pass"]
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
                  coverage=dict(
                      states=sum(r.get("vccs", 0) for r in res),
                      transitions=sum(r.get("vccs_left", 0) for r in res),
                      traces_validated_against_impl=len(self.violations) + len(self.known),
                      samples=[dict(harness=r["name"], unwind=r.get("unwind_used"), checks=len(r["results"]),
                                    vccs=r.get("vccs"), vccs_after_simplification=r.get("vccs_left"),
                                    sat_variables=r.get("vars"), queries=r.get("queries"),
                                    symex_s=round(r.get("symex_s", 0), 2), solver_s=round(r.get("solver_s", 0), 2),
                                    verdict=r["verdict"]) for r in res],
                      explanation="states = verification conditions generated by symbolic execution of the real code; "
                                  "transitions = those left for the SAT solver after simplification. Bounds per harness "
                                  "are in DESIGN.md and in harness/src; unwinding assertions are on.",
                      harnesses=len(res), harnesses_passed=len(passed), checks_decided=n, checks_held=ok,
                      witnesses_reached=sum(1 for r in res for c in r["results"]
                                            if c["desc"].startswith("VP-WITNESS") and c["status"] == "FAILURE"),
                      queries_discharged=sum(r.get("queries", 0) for r in res),
                      solver_s=round(sum(r.get("solver_s", 0) for r in res), 2),
                      symex_s=round(sum(r.get("symex_s", 0) for r in res), 2),
                      codegen_s=round(getattr(self, "codegen_s", 0), 2),
                      functions_encoded=sorted(funs), functions_encoded_count=len(funs),
                      problems=self.problems, not_explored=self.beyond, known_findings=self.known),
                  assumptions=self.all["assumptions"] + (self.all["kani_assumptions"] if self.cfg.get("kani", True) else [])
                  + (self.all["ir_assumptions"] if ir else []) + self.cfg.get("assumptions", []),
                  wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        if ir and ir.results:
            cov, rs = ev["coverage"], ir.results
            cov["samples"] += [{k: r[k] for k in ("harness", "verdict", "paths", "steps", "thrown", "queries", "solver_s", "seconds")} for r in rs]
            cov["states"] += sum(r["paths"] for r in rs)
            cov["transitions"] += sum(r["forks"] for r in rs)
            cov["explanation"] += " For the harnesses of the IR executor (tools/irx.py), states are explored paths and " \
                                  "transitions are decisions by the solver; bounds are in DESIGN.md and in unwind/src."
            cov["harnesses"] += len(rs)
            cov["harnesses_passed"] += sum(r["verdict"] == "pass" for r in rs)
            cov["queries_discharged"] += sum(r["queries"] for r in rs)
            cov["solver_s"] = round(cov["solver_s"] + sum(r["solver_s"] for r in rs), 2)
            cov["ir"] = dict(not_explored=ir.problems if self.cfg["ir"].get("supplement") else [], paths=sum(r["paths"] for r in rs), paths_with_a_panic=sum(r["thrown"] for r in rs),
                             instructions=sum(r["steps"] for r in rs), build_s=round(ir.build_s, 2), more=ir.more)
            cov["functions_encoded"] = sorted(set(cov["functions_encoded"]).union(*[r["functions"] for r in rs]))
            cov["functions_encoded_count"] = len(cov["functions_encoded"])
        # dync's own functions first, and no more than a reader of the evidence takes
        size, names = 0, []
        for f in sorted(ev["coverage"]["functions_encoded"], key=lambda f: ("dync" not in f, f)):
            f = f if len(f) <= 200 else f[:197] + "..."
            size += len(f) + 6
            if size > 200_000: break
            if not names or names[-1] != f: names.append(f)
        ev["coverage"]["functions_encoded"] = names
        for k in ("problems", "not_explored"): ev["coverage"][k] = [x[:1000] for x in ev["coverage"][k]][:100]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        if os.environ.get("VP_COSTS"):
            p = os.path.join(HERE, "vp", "costs.json")
            try:
                c = json.load(open(p))
            except OSError:
                c = {}
            for r in res:
                c[r["name"]] = round(r.get("cbmc_s", 0) + r.get("link_s", 0))
            for r in ir.results if ir else []:
                c[r["harness"]] = round(r["seconds"])
            json.dump(c, open(p, "w"), indent=0, sort_keys=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--selftest":
        for t in ("goto-cc", "goto-instrument", "cbmc"):
            if not os.path.exists(KANI + "/bin/" + t):
                sys.exit("missing " + t)
        sys.exit(0)
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for x in a[1:]:
        if x in ("quick", "thorough"):
            tier = x
        else:
            only = x
    sys.exit(Check(pid, tier, only).main())


if __name__ == "__main__":
    main()
