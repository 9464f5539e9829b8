#!/usr/bin/env python3
"""Solver-based check of one property of sile/bytecodec.

  check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep]

Encodes the property's harnesses together with /repo's current working tree
(Kani: rustc MIR -> GOTO -> CBMC/CaDiCaL), asks the solver for a violation of
any assertion within the stated bounds, replays every counterexample natively
against the real crate, and writes evidence/<PROPERTY>.json.

Exit 0: held.  Exit 1 + "VIOLATION ..." line: broken (replayed).  2: no answer.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
KANI_BIN = None  # found from `kani` installation, for function listing


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def run(cmd, cwd, timeout, logfile=None, extra_env=None, mem_gb=None):
    """Runs a command in its own process group; returns (rc, output), rc None on timeout."""
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    e = env()
    e.update(extra_env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    out = out.decode("utf-8", "replace")
    if logfile:
        with open(logfile, "w") as f:
            f.write(out)
    return rc, out


class Check:
    def __init__(self, prop, cfg, tier, only, keep):
        self.prop, self.cfg, self.tier, self.only, self.keep = prop, cfg, tier, only, keep
        self.t0 = time.time()
        self.deadline = self.t0 + (840 if tier == "quick" else 6 * 3600)
        self.crate = cfg.get("crate", "core")
        self.dir = os.path.join(VERIF, "harness", self.crate)
        self.native_dir = os.path.join(VERIF, "harness", self.crate + "-native")
        self.build = os.path.join(VERIF, ".build", "%s-%s-%d" % (prop, tier, os.getpid()))
        self.replays = os.path.join(VERIF, ".replays")
        os.makedirs(self.build, exist_ok=True)
        os.makedirs(self.replays, exist_ok=True)
        self.features = ["thorough"] if tier == "thorough" else []
        self.native_bins = {}
        self.problems = []      # reasons for "no answer"
        self.violations = []
        self.findings = []

    def left(self):
        return self.deadline - time.time()

    # ------------------------------------------------------------- solver runs
    def kani_cmd(self, harnesses, target, exact=False, jobs=8, unwind=None, playback=False,
                 timeout=None, export=None):
        c = ["cargo", "kani", "--target-dir", target, "--no-memory-safety-checks",
             "--no-assertion-reach-checks", "-Z", "unstable-options",
             "--output-format", "regular" if playback else "terse"]
        if not playback:
            c += ["-j", str(jobs)]
        for h in harnesses:
            c += ["--harness", h]
        if exact:
            c += ["--exact"]
        if self.features:
            c += ["--features", ",".join(self.features)]
        if unwind:
            c += ["--unwind", str(unwind)]
        if timeout:
            c += ["--harness-timeout", "%ds" % timeout]
        if playback:
            c += ["-Z", "concrete-playback", "--concrete-playback=print"]
        if export:
            c += ["--export-json", export]
        for flag in self.cfg.get("kani_flags", []):
            c += flag.split()
        return c

    def solve(self, harnesses, tag, exact=False, unwind=None, timeout=None):
        export = os.path.join(self.build, tag + ".json")
        target = os.path.join(self.build, "kani")
        if os.path.exists(export):
            os.unlink(export)
        rc, out = run(self.kani_cmd(harnesses, target, exact=exact, unwind=unwind,
                                    timeout=timeout, export=export),
                      self.dir, self.left(), os.path.join(self.build, tag + ".log"), mem_gb=14)
        if rc is None:
            self.problems.append("time limit reached while solving (%s)" % tag)
        if not os.path.exists(export):
            errs = [l for l in out.splitlines() if re.match(r"error", l)]
            self.problems.append("no result from kani (%s): %s" % (tag, "; ".join(errs[:3]) or out[-400:]))
            return None
        return json.load(open(export))

    # ----------------------------------------------------------------- replay
    def native(self, profile):
        if profile in self.native_bins:
            return self.native_bins[profile]
        target = os.path.join(self.build, "native")
        cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", target]
        if profile == "release":
            cmd.append("--release")
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        rc, out = run(cmd, self.native_dir, min(self.left(), 600),
                      os.path.join(self.build, "native-%s.log" % profile))
        path = os.path.join(target, "release" if profile == "release" else "debug", "replay")
        if rc != 0 or not os.path.exists(path):
            self.problems.append("native replay build failed (%s)" % profile)
            path = None
        self.native_bins[profile] = path
        return path

    def replay(self, harness, vals):
        """Runs the counterexample on the real crate. Returns a description or None."""
        arg = ",".join("".join("%02x" % b for b in v) for v in vals)
        for profile in ("dev", "release"):
            b = self.native(profile)
            if not b:
                continue
            rc, out = run([b, harness, arg], self.build, 20, mem_gb=4)
            if rc is None:
                return "%s profile: does not terminate (20 s)" % profile
            if rc == 1 or rc < 0 or rc >= 128:
                msg = " ".join(out.split())[:400]
                return "%s profile: %s" % (profile, msg or "killed by signal %s" % rc)
        return None

    def counterexamples(self, harness, unwind=None):
        rc, out = run(self.kani_cmd([harness], os.path.join(self.build, "kani"), exact=True,
                                    playback=True, unwind=unwind),
                      self.dir, min(self.left(), 300), mem_gb=14, logfile=
                      os.path.join(self.build, "playback-%s.log" % harness.replace("::", "-")))
        res = []
        for m in re.finditer(r"/// Check for `([^`]*)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];",
                             out, re.S):
            kind, desc, body = m.group(1), m.group(2), m.group(3)
            vals = []
            for l in body.splitlines():
                l = l.strip()
                v = re.match(r"vec!\[([0-9, ]*)\]", l)
                if v:
                    vals.append([int(x) for x in v.group(1).split(",") if x.strip()])
            res.append((kind, desc.strip().strip('"'), vals))
        # failures first; witnesses of cover statements last
        res.sort(key=lambda r: r[0] == "cover")
        return res

    def endless(self, harness, goto, bound):
        """An unwinding assertion failed: gets the solver's input that exceeds the
        bound and runs it on the real crate. Returns (description, replay path) if
        the real code does not terminate (or fails) on it."""
        return self.trace(harness, goto, bound, [], lambda p, d: "unwinding" in d)

    def trace(self, harness, goto, bound, only, wanted):
        """Asks the solver for an input that violates a wanted check (of those in
        `only`, if any) and runs it on the real crate. Returns (description, replay
        path) if the real code fails on it."""
        cbmc = self.cbmc()
        out_file = re.sub(r"\.symtab\.out$", "", goto) + ".out"
        if not os.path.exists(out_file):
            return None
        flags = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
                 "--no-bounds-check", "--no-pointer-check", "--no-self-loops-to-assumptions",
                 "--no-pointer-primitive-check"]
        if only:
            rc, out = run([cbmc] + flags + ["--show-properties", "--json-ui", out_file], self.build, 60, mem_gb=12)
            try:
                props = [p for x in json.loads(out) if isinstance(x, dict) for p in x.get("properties", [])]
            except ValueError:
                return None
            names = [p["name"] for p in props if any(
                p.get("description", "").endswith(c["description"]) and p.get("class") != "cover" and
                str(p.get("sourceLocation", {}).get("line")) == str((c.get("location") or {}).get("line"))
                for c in only)]
            if not names:
                return None
            for n in names[:6]:
                flags += ["--property", n]
        rc, out = run([cbmc] + flags + ["--object-bits", "16", "--unwind", str(bound),
                       "--sat-solver", "cadical", "--trace", "--compact-trace", out_file,
                       "--verbosity", "4", "--json-ui"], self.build, min(self.left(), 240), mem_gb=16)
        try:
            parts = json.loads(out)
        except ValueError:
            return None
        for r in [r for x in parts if isinstance(x, dict) for r in x.get("result", [])]:
            if r.get("status") != "FAILURE" or not wanted(r.get("property", ""), r.get("description", "")):
                continue
            vals = []
            for st in r.get("trace", []):
                lhs = st.get("lhs", "")
                if st.get("stepType") == "assignment" and lhs.startswith("goto_symex$$return_value") \
                        and "any_raw" in lhs:
                    bits = st.get("value", {}).get("binary", "")
                    vals.append([int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)][::-1])
            what = self.replay(harness, vals)
            if what:
                return self.record(harness, r["description"], [r["property"]], vals, what)
        return None

    def bound(self, harness, goto):
        import glob
        for f in glob.glob(os.path.join(os.path.dirname(goto), "*.kani-metadata.json")):
            for h in json.load(open(f)).get("proof_harnesses", []):
                if h["pretty_name"] == harness:
                    return h["attributes"].get("unwind_value")
        return None

    def cbmc(self):
        import glob
        found = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc")) +
                       glob.glob("/root/.kani/kani-*/bin/cbmc"))
        return found[-1] if found else "cbmc"

    def record(self, harness, desc, failed, vals, what):
        path = os.path.join(self.replays, "%s-%s.json" % (self.prop, harness.replace("::", "-")))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "harness": harness, "check": desc,
                       "failed_checks": failed, "values": vals, "native": what,
                       "command": "cd %s && cargo run --offline --bin replay -- %s %s" % (
                           self.native_dir, harness,
                           ",".join("".join("%02x" % b for b in v) for v in vals))}, f, indent=1)
        return what, path

    def confirm(self, harness, failed, unwind=None):
        """A solver counterexample: replay it. Returns (description, replay path) or None."""
        for kind, desc, vals in self.counterexamples(harness, unwind):
            if kind == "cover":
                continue
            what = self.replay(harness, vals)
            if what:
                return self.record(harness, desc, failed, vals, what)
        return None

    # ------------------------------------------------------------------- main
    def functions(self, export):
        """Functions of the crate under test that are in the encoded GOTO programs."""
        cbmc = self.cbmc()
        names, procs = set(), []

        def collect():
            for p in procs:
                out = p.communicate()[0].decode("utf-8", "replace")
                for l in out.splitlines():
                    n = l.split(" /*")[0].strip()
                    if "bytecodec::" not in n or "body not available" in l or "drop_in_place" in n or "trackable::" in n:
                        continue
                    n = n.split("::{closure")[0]
                    if re.match(r"(<&?(mut )?)?(bytecodec::|std::boxed::Box<bytecodec)", n) \
                            or re.match(r"<.* as bytecodec::", n):
                        names.add(n[:200])
            procs.clear()

        for h in export["harness_metadata"]:
            out = re.sub(r"\.symtab\.out$", "", h["goto_file"]) + ".out"
            if os.path.exists(out):
                procs.append(subprocess.Popen([cbmc, "--list-goto-functions", out],
                                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
            if len(procs) >= 8:
                collect()
        collect()
        return sorted(names)

    def run(self):
        prop = self.prop
        prefix = prop.lower() + "::"
        pats = [prefix + (self.only or "")]
        log("%s [%s]: encoding and solving harnesses %s*" % (prop, self.tier, pats[0]))
        cap = self.cfg.get("timeout", {}).get(self.tier, 420 if self.tier == "quick" else 5400)
        export = self.solve(pats, "main", timeout=cap)
        known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                 if k["property"] == prop]
        stats = dict(harnesses=0, checks=0, discharged=0, witnesses=0, witnesses_satisfied=0,
                     vccs=0, vccs_remaining=0, ssa_steps=0, symex_s=0.0, solver_s=0.0, verify_s=0.0)
        per = []
        funcs = []
        if export:
            funcs = self.functions(export)
            self.judge(export, known, stats, per, None)
            if not export["verification_results"]["results"]:
                self.problems.append("no harness ran")
        if self.tier == "thorough" and not self.violations and not self.problems:
            self.cross_validate(stats)
        self.evidence(stats, per, funcs)
        for k in self.findings:
            log("KNOWN-FINDING: property=%s %s" % (prop, k))
        for h, what, path in self.violations:
            log("%s: %s" % (h, what))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        if not self.keep:
            shutil.rmtree(self.build, ignore_errors=True)
        if self.violations:
            return 1
        if self.problems:
            for p in self.problems:
                log("NO ANSWER: " + p)
            return 2
        log("%s: held; %d harnesses, %d checks discharged, %d witnesses, %.1f s" % (
            prop, stats["harnesses"], stats["discharged"], stats["witnesses_satisfied"],
            time.time() - self.t0))
        return 0

    def judge(self, export, known, stats, per, unwind):
        cb = {c["harness_id"]: c.get("cbmc_stats") or {} for c in export.get("cbmc", [])}
        done = set()
        retry, failed = [], []
        for r in export["verification_results"]["results"]:
            h = r["harness_id"]
            done.add(h)
            checks = r.get("checks") or []
            fails, unw, covers_bad, odd = [], [], [], []
            nch = nok = ncov = ncovs = 0
            for c in checks:
                cat, st = c.get("category"), c.get("status")
                if cat == "cover":
                    ncov += 1
                    if st == "Satisfied":
                        ncovs += 1
                    else:
                        covers_bad.append(c["description"])
                    continue
                nch += 1
                if st == "Success" or st == "Unreachable":
                    nok += 1
                elif st == "Failure":
                    if cat == "unwind" or "unwinding" in c["description"]:
                        unw.append(c)
                    elif cat in ("unsupported_construct", "missing_definition"):
                        odd.append(c)
                    else:
                        fails.append(c)
                else:
                    odd.append(c)
            s = cb.get(h, {})
            stats["harnesses"] += 1
            stats["checks"] += nch
            stats["discharged"] += nok
            stats["witnesses"] += ncov
            stats["witnesses_satisfied"] += ncovs
            stats["vccs"] += int(s.get("vccs_generated") or 0)
            stats["vccs_remaining"] += int(s.get("vccs_remaining") or 0)
            stats["ssa_steps"] += int(s.get("size_program_expression") or 0)
            stats["symex_s"] += float(s.get("runtime_symex_s") or 0)
            stats["solver_s"] += float(s.get("runtime_decision_procedure_s") or 0)
            stats["verify_s"] += (r.get("duration_ms") or 0) / 1000.0
            per.append({"harness": h, "status": r.get("status"), "checks": nch, "discharged": nok,
                        "witnesses": ncovs, "seconds": round((r.get("duration_ms") or 0) / 1000.0, 2)})
            desc = [("%s (%s:%s)" % (c["description"], (c.get("location") or {}).get("file"),
                                     (c.get("location") or {}).get("line"))) for c in fails]
            finding = next((k for k in known if k["harness"] == h), None)
            if fails:
                failed.append((r.get("duration_ms") or 0, h, desc, finding, fails))
            elif unw:
                retry.append(h)
            elif not checks or (r.get("status") != "Success" and not odd):
                self.problems.append("%s: no verdict (status %s; time or memory limit)" % (h, r.get("status")))
            elif odd:
                self.problems.append("%s: inconclusive checks: %s" % (h, "; ".join(c["description"] + "=" + str(c["status"]) for c in odd[:3])))
            elif finding:
                log("note: recorded finding no longer occurs: %s (%s)" % (h, finding["what"]))
            if covers_bad and not fails and not unw and not odd and not finding:
                self.problems.append("%s: vacuous, witness not reachable: %s" % (h, "; ".join(covers_bad[:3])))
        # cheapest first; one replayed counterexample settles the verdict
        meta = {m["pretty_name"]: m for m in export["harness_metadata"]}
        for _, h, desc, finding, fails in sorted(failed, key=lambda f: f[:2]):
            if self.violations and not finding:
                log("%s: also refuted (not replayed): %s" % (h, "; ".join(desc[:2])))
                continue
            got = self.confirm(h, desc, unwind)
            if not got and h in meta:
                m = meta[h]
                bound = unwind or self.bound(h, m["goto_file"])
                got = bound and self.trace(h, m["goto_file"], bound, fails, lambda p, d: "unwinding" not in d)
            if got and finding:
                self.findings.append(finding["what"])
            elif got:
                self.violations.append((h, got[0], got[1]))
            else:
                self.problems.append("%s: counterexample did not replay natively: %s" % (h, "; ".join(desc[:4])))
        if self.violations:
            retry = []
        missing = [m["pretty_name"] for m in export["harness_metadata"] if m["pretty_name"] not in done]
        if missing and unwind is None:
            self.problems.append("no verdict for: " + ", ".join(missing))
        if retry:
            if unwind is None:
                # a loop that never ends exceeds every bound: try the solver's input
                for h in retry[:3]:
                    m = meta.get(h)
                    bound = m and self.bound(h, m["goto_file"])
                    got = m and bound and self.endless(h, m["goto_file"], bound)
                    if got:
                        self.violations.append((h, got[0], got[1]))
                        return
                log("unwinding bound too small for the current tree, retrying: " + ", ".join(retry))
                def wider(h):
                    own = self.cfg.get("retry_for", {})
                    b = max([own[p] for p in h.split("::") if p in own] or [self.cfg.get("retry_unwind", 16)])
                    had = (self.bound(h, meta[h]["goto_file"]) if h in meta else None) or 0
                    return b if b > had else max(48, had + 40)
                self.again(retry, wider, 300, known, stats, per)
            elif unwind < 48:
                log("unwinding bound still too small, retrying: " + ", ".join(retry))
                self.again(retry, lambda h: 48, 400, known, stats, per)
            else:
                self.problems.append("unwinding bound %d not enough for: %s" % (unwind, ", ".join(retry)))

    def again(self, retry, bound_for, timeout, known, stats, per):
        bounds = {}
        for h in retry:
            bounds.setdefault(bound_for(h), []).append(h)
        for b in sorted(bounds):
            timeout = int(min(timeout, max(30, self.left() - 20)))
            export = self.solve(bounds[b], "retry%d" % b, exact=True, unwind=b, timeout=timeout)
            if export:
                self.judge(export, known, stats, per, b)

    def cross_validate(self, stats):
        """Runs the same harnesses natively on random inputs: encoding vs. reality."""
        b = self.native("dev")
        if not b:
            return
        seed = os.environ.get("VERIF_SEED", "1")
        rc, out = run([b, "--random", "3000", seed, self.prop.lower() + "::"], self.build, 900, mem_gb=8)
        m = re.search(r"RAN (\d+)", out)
        if rc == 0 and m:
            stats["native_cross_validation_runs"] = int(m.group(1))
        else:
            known = [k["harness"] for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]]
            f = re.search(r"FAILED (\S+)", out)
            if f and f.group(1) in known:
                return
            self.problems.append("native run disagrees with the solver: " + " ".join(out.split())[-300:])

    def evidence(self, stats, per, funcs):
        cfg = self.cfg
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": cfg.get("level", "model_checking"),
            "coverage": {
                "explanation": "Bounded symbolic execution of the compiled code of /repo's working tree "
                               "(Kani: MIR -> GOTO; CBMC symex; CaDiCaL decides) with unwinding assertions on; "
                               "every check below was decided by the solver for all values within the bounds. "
                               "Counterexamples are replayed natively before being reported.",
                "bounds": cfg.get("bounds", ""),
                "harnesses": stats["harnesses"],
                "obligations": stats["checks"], "discharged": stats["discharged"],
                "reachability_witnesses": stats["witnesses"],
                "reachability_witnesses_satisfied": stats["witnesses_satisfied"],
                "verification_conditions": stats["vccs"],
                "verification_conditions_after_simplification": stats["vccs_remaining"],
                "transitions": stats["ssa_steps"],
                "transitions_meaning": "SSA steps of the symbolic executions",
                "symex_s": round(stats["symex_s"], 2), "solver_s": round(stats["solver_s"], 3),
                "verify_cpu_s": round(stats["verify_s"], 1),
                "functions_encoded": funcs, "functions_encoded_count": len(funcs),
                "per_harness": per,
                "samples": [p["harness"] for p in per[:10]],
                "checker_cmd": " ".join(self.kani_cmd([self.prop.lower() + "::"], "<target>")),
                "known_findings_seen": self.findings,
                "problems": self.problems,
            },
            "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if "native_cross_validation_runs" in stats:
            ev["coverage"]["traces_validated_against_impl"] = stats["native_cross_validation_runs"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    "Kani/CBMC's translation of MIR and the Rust standard library it ships (nightly-2026-08-21) are trusted; "
    "the target is x86_64, 64-bit usize.",
    "`trackable` is replaced by verif/model/trackable during symbolic execution: error kinds are kept, "
    "causes, messages and location history are dropped. Native replay uses the real crate.",
    "Allocation never fails; memory-safety checks are off because the crate has no unsafe code "
    "(bounds checks, overflow checks and panics remain on).",
    "Nothing is claimed beyond the stated bounds.",
]


def setup():
    """Checks that the tools work offline; nothing is prebuilt (checks build from /repo's tree)."""
    for d in ("evidence", ".build", ".replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    rc, out = run(["cargo", "kani", "--version"], VERIF, 120)
    log(out.strip())
    return 0 if rc == 0 else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        sys.exit(setup())
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))
    sys.exit(Check(a.prop, cfg.get(a.prop, {}), a.tier, a.only, a.keep).run())


if __name__ == "__main__":
    main()
