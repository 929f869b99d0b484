"""The second engine: builds the LLVM IR of /verif/unwind and dync, runs irx.py on it, replays counterexamples."""
import glob, hashlib, json, os, re, subprocess, threading, time

TARGET = "x86_64-unknown-linux-gnu"
FLAGS = "-Ccodegen-units=1 -Copt-level=3 -Cno-prepopulate-passes -Zshare-generics=no"


def harness_names(here):
    out = []
    for f in sorted(glob.glob(os.path.join(here, "unwind", "src", "*.rs"))):
        out += re.findall(r"^ +(\w+): \w+<", open(f).read(), re.M)
    return out


class Ir:
    def __init__(self, check, here, run, log):
        self.c, self.here, self.run, self.log = check, here, run, log
        self.crate = os.path.join(here, "unwind")
        self.dir = os.path.join(check.dir, "ir")
        self.conf = check.cfg.get("ir")
        self.features = check.cfg.get("features", []) + (self.conf or {}).get("features", [])
        self.results, self.problems, self.violations = [], [], []
        self.more, self.builder, self.build_s = 0, None, 0

    def start(self):
        """build while the other engine works"""
        def go():
            try: self.files = self.build()
            except Exception as e:
                self.files = None
                self.problems.append("the IR was not built: %r" % e)
        self.builder = threading.Thread(target=go)
        self.builder.start()

    def build(self):
        """-> the IR files, compiled from the current trees"""
        t = time.time()
        lib = [threading.Thread(target=self.library, args=(n,)) for n in ("core", "alloc")]
        for x in lib: x.start()
        cmd = ["cargo", "build", "--lib", "--offline", "--target", TARGET]
        if self.features: cmd += ["--features", ",".join(self.features)]
        rc, o = self.run(cmd, min(self.c.left(), 400), cwd=self.crate,
                         extra_env={"CARGO_TARGET_DIR": self.dir, "RUSTUP_TOOLCHAIN": "nightly",
                                    "RUSTFLAGS": "--emit=llvm-ir " + FLAGS + " -Awarnings"})
        for x in lib: x.join()
        self.build_s = time.time() - t
        files = []
        for d in ("uw", "dync"):
            found = glob.glob(os.path.join(self.dir, TARGET, "debug", "build", d, "*", "out", d + "-*.ll")) \
                + glob.glob(os.path.join(self.dir, TARGET, "debug", "deps", d + "-*.ll"))
            if len(found) == 1: files += found
        if rc != 0 or len(files) != 2:
            self.log("\n".join(o.splitlines()[-60:]))
            self.problems.append("the panic harnesses do not compile against /repo: %s"
                                 % "; ".join([l for l in o.splitlines() if l.startswith("error")][:5]))
            return None
        return self.link(files)

    def library(self, name):
        """The IR of the part of the standard library that is not generic, from the source in the toolchain."""
        d = os.path.join(self.dir, "lib-" + name)
        os.makedirs(d, exist_ok=True)
        src = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip() \
            + "/lib/rustlib/src/rust/library/%s/src/lib.rs" % name
        self.run(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", name, src, "--emit=llvm-ir,metadata"]
                 + FLAGS.split() + ["--cap-lints", "allow", "-Zforce-unstable-if-unmarked", "--out-dir", d], min(self.c.left(), 400))

    def link(self, files):
        """Give the library's symbols the crate identifiers that the compiled program uses."""
        names, out = set(), []
        for f in files: names.update(re.findall(r"(Cs\w{8,13}_(?:4core|5alloc))", open(f).read()))
        for name in ("core", "alloc"):
            f = os.path.join(self.dir, "lib-" + name, name + ".ll")
            try: text = open(f).read()
            except OSError:
                self.problems.append("the IR of the standard library's %s was not made" % name)
                return None
            tag = "_%d%s" % (len(name), name)
            here = set(re.findall(r"^define .*?@_R\w*?(Cs\w{8,13}%s)" % tag, text, re.M))
            there = {n for n in names if n.endswith(tag)}
            mine = [n for n in here if name == "core" or n not in names]
            if len(there) == 1 and len(mine) == 1 and len(mine[0]) == len(min(there)):
                text = text.replace(mine[0], min(there))
            elif not (len(there) == 1 and there <= here):
                self.problems.append("the symbols of the standard library do not fit: %s for %s" % (sorted(here), sorted(there)))
                return None
            with open(f, "w") as w: w.write(text)
            out.append(f)
        return files + out

    def main(self, only=None):
        names = [n for n in harness_names(self.here) if re.fullmatch(self.conf["harnesses"][self.c.tier], n)]
        if only: names = [n for n in names if re.fullmatch(only, n)]
        if not names: return
        if self.builder: self.builder.join()
        files = self.files if self.builder else self.build()
        if not files: return
        self.more = self.conf["more"][self.c.tier]
        secs = min(self.conf["seconds"][self.c.tier], self.c.left() - 90)
        costs = {}
        try: costs = json.load(open(os.path.join(self.here, "vp", "costs.json")))
        except OSError: pass
        names.sort(key=lambda n: -costs.get(n, 10))
        out = os.path.join(self.c.dir, "ir.jsonl")
        rc, _ = self.run(["python3-vt", os.path.join(self.here, "tools", "irx.py"), ",".join(names), str(secs), "8"] + files,
                         self.c.left() - 60, extra_env={"VP_MORE": str(self.more)}, out=out)
        for l in open(out):
            if l.startswith("{"): self.results.append(json.loads(l))
        got = {r["harness"] for r in self.results}
        for n in names:
            if n not in got: self.problems.append("%s: no verdict (executor exit %s)" % (n, rc))
        for r in self.results:
            n = r["harness"]
            r["verdict"] = "fail" if r["found"] else "error" if "no_verdict" in r else "pass"
            if r["verdict"] == "pass":
                # The harness must have run to its end: calmly, and where user code can panic, also with a panic.
                want = set(self.conf.get("witness", {}).get(n, self.conf.get("default_witness", [1, 2])))
                if not want <= set(r["witness"]):
                    r["verdict"], r["no_verdict"] = "error", "vacuous: reached only %s" % r["witness"]
            self.log("  %-34s %-6s %5.1f s  paths %d  with a panic %d  steps %d  queries %d  solver %.1f  %s" % (
                n, r["verdict"], r["seconds"], r["paths"], r["thrown"], r["steps"], r["queries"], r["solver_s"],
                r.get("no_verdict", "")))
            if r["found"] and not self.violations:
                hit, why = False, []
                for x in r["found"]:
                    ok, f, notes = self.reproduce(n, x)
                    if ok:
                        k = self.c.is_known(dict(name=n), dict(desc=x["what"]))
                        if k: self.c.known.append("%s (%s)" % (k["what"], x["what"]))
                        else: self.violations.append((r, x, f))
                        hit = True
                        if not k: break
                    else: why.append("%s: %s does not reproduce natively (%s)" % (n, x["what"][:150], "; ".join(notes)[:600]))
                if not hit: self.problems += why
            elif r["verdict"] == "error": self.problems.append("%s: %s" % (n, r["no_verdict"]))
        if os.path.exists(out): os.unlink(out)

    # -- replay
    def binary(self, prof):
        if not hasattr(self, "bins"): self.bins = {}
        if prof in self.bins: return self.bins[prof]
        tgt = os.path.join(self.c.dir, "ir-native-" + prof)
        ee = {"CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "stable"}
        cmd, sub = ["cargo", "build", "--offline", "--features", ",".join(["native"] + self.features), "--bin", "uw"], "debug"
        if prof == "release":
            cmd.append("--release")
            sub = "release"
        if prof == "checked": ee.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")
        if prof == "asan":
            ee.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address --cfg vp_asan")
            cmd += ["--target", TARGET]
            sub = TARGET + "/debug"
        rc, o = self.run(cmd, max(60, self.c.left()), cwd=self.crate, extra_env=ee)
        p = os.path.join(tgt, sub, "uw")
        if rc != 0 or not os.path.exists(p):
            self.log("replay build (%s) failed:\n%s" % (prof, o[-2000:]))
            p = None
        self.bins[prof] = p
        return p

    def reproduce(self, name, x):
        d = os.path.join(self.here, "replays", self.c.pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.json" % (name, hashlib.sha1(repr(x["values"]).encode()).hexdigest()[:8]))
        args = [name, str(self.more)] + [str(v) for v in x["values"]]
        hit, notes = False, []
        for prof in ("checked", "release", "asan", "miri"):
            if hit: break
            ee = {"RUST_BACKTRACE": "0"}
            if prof == "miri":
                ee.update(CARGO_TARGET_DIR=os.path.join(self.c.dir, "ir-native-miri"), RUSTUP_TOOLCHAIN="nightly",
                          MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
                cmd = ["cargo", "miri", "run", "-q", "--offline", "--features", ",".join(["native"] + self.features), "--bin", "uw", "--"] + args
            else:
                b = self.binary(prof)
                if not b: continue
                cmd = [b] + args
            rc, o = self.run(cmd, 240 if prof == "miri" else 60, cwd=self.crate, extra_env=ee)
            last = [l for l in o.splitlines() if l.strip()][-4:]
            if "FAILED: " in o or "Undefined Behavior" in o or "AddressSanitizer" in o or (rc is not None and rc < 0) or rc == 101:
                hit, res = True, "reproduced"
            else: res = "timeout" if rc is None else "no"
            notes.append("%s: %s (exit %s) %s" % (prof, res, rc, " | ".join(last)[:300]))
        json.dump(dict(property=self.c.pid, harness=name, failed=x["what"], stack=x["stack"], values=x["values"],
                       command="uw " + " ".join(args), replays=notes), open(f, "w"), indent=1)
        return hit, f, notes
