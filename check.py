#!/usr/bin/env python3
"""Decides one property: Verus over the functions of /repo/src under contract,
plus a labelled, bounded run of the real crate for what is outside Verus' reach.

usage: check.py PROPERTY [--tier quick|thorough]      check.py --setup
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AVDL_REPO", "/repo")
WORK = os.path.join(V, "work")
NOINPUT = "no-failing-input-found"
VERUS_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
    "decreases not satisfied", "possible arithmetic", "possible division by zero", "possible bit shift", "termination",
    "loop invariant not", "could not prove", "unreachable", "assert_forall", "requires not satisfied", "constructed value may fail",
    "failed precondition", "conjunct", "index out of bounds", "cannot show", "recursive call",
)
# Failed obligations that mean "this may panic, or may not end".
PANICS = ("precondition", "possible arithmetic", "possible division by zero", "possible bit shift", "unreachable", "index out of bounds",
          "decreases not satisfied", "termination", "requires not satisfied")
RLIMIT = ("rlimit", "resource limit", "Resource limit")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def log(*a):
    print(*a, flush=True)


def cargo_build(manifest, target, extra=()):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", manifest, *extra], env=env)
    return r.returncode == 0, r.stderr.decode(errors="replace")


# ---------------------------------------------------------------------------
# Deduction
# ---------------------------------------------------------------------------
class Deduction:
    """Extract, verify; leave functions the verifier cannot take undecided."""

    def __init__(self, prop, wanted, thorough=False):
        self.prop, self.wanted, self.thorough = prop, wanted, thorough
        self.other_seed, self.vacuity = None, None
        self.gen = os.path.join(WORK, f"gen-{prop}")
        self.failed, self.undecided, self.proved = {}, {}, {}
        self.notes, self.smt_ms, self.obligations, self.version = [], 0, {}, ""
        self.error = None
        self.trusted = []
        self.cmd = ""

    def vx(self, demote):
        exe = os.path.join(WORK, "vx-target/debug/vx")
        if not os.path.exists(exe):
            ok, err = cargo_build(os.path.join(V, "vx/Cargo.toml"), os.path.join(WORK, "vx-target"))
            if not ok:
                raise RuntimeError("building the extractor failed: " + err[-2000:])
        shutil.rmtree(self.gen, ignore_errors=True)
        cmd = [exe, "--repo", REPO, "--specs", os.path.join(V, "specs"), "--out", self.gen]
        if demote:
            cmd += ["--demote", ",".join(sorted(demote))]
        r = sh(cmd)
        path = os.path.join(self.gen, "report.json")
        if not os.path.exists(path):
            raise RuntimeError("extraction failed: " + r.stderr.decode(errors="replace")[-2000:])
        return json.load(open(path))

    def verus(self, extra=(), logdir=None):
        cmd = ["verus", "--crate-type=lib", "--edition", "2024", "--triggers-mode", "silent", "lib.rs", "--output-json",
               "--time-expanded", "--num-threads", "6", *extra]
        if logdir:
            cmd += ["--log", "air", "--log-dir", logdir]
        cmd += ["--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        r = sh(cmd, cwd=self.gen)
        try:
            out = json.loads(r.stdout.decode(errors="replace"))
        except ValueError:
            out = {}
        diags = []
        for l in r.stderr.decode(errors="replace").split("\n"):
            try:
                d = json.loads(l)
                if isinstance(d, dict) and "message" in d:
                    diags.append(d)
            except ValueError:
                pass
        return out, diags

    def locate(self, report, d):
        """The functions of the unit a diagnostic points into."""
        hits = []
        spans = list(d.get("spans", []))
        for c in d.get("children", []):
            spans += c.get("spans", [])
        spans.sort(key=lambda s: not s.get("is_primary"))
        for s in spans:
            for f in report["functions"]:
                if os.path.basename(s["file_name"]) == f.get("gen_file") and f.get("gen_lines") and f["gen_lines"][0] <= s["line_start"] <= f["gen_lines"][1]:
                    if f["key"] not in hits:
                        hits.append(f["key"])
        return hits

    def run(self):
        try:
            self._run()
        except Exception as e:  # the machinery, not the code
            self.error = f"{type(e).__name__}: {e}"

    def _run(self):
        demote, reasons = set(), {}
        for _ in range(25):
            report = self.vx(demote)
            if report.get("fatal"):
                raise RuntimeError("extraction: " + "; ".join(map(str, report["fatal"] if isinstance(report["fatal"], list) else [report["fatal"]]))[:1500])
            logdir = os.path.join(self.gen, "log")
            out, diags = self.verus(logdir=logdir)
            errors = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            compile_errors = [d for d in errors if not self.is_verification(d)]
            if not compile_errors:
                break
            new = set()
            for d in compile_errors:
                for k in self.locate(report, d):
                    if k not in demote:
                        new.add(k)
                        reasons.setdefault(k, d["message"][:200])
                        break
            if not new:
                raise RuntimeError("the unit does not compile: " + " | ".join((d.get("rendered") or d["message"])[:400] for d in compile_errors[:3]))
            demote |= new
        else:
            raise RuntimeError("too many functions outside the verifier's reach")
        results = out.get("verification-results", {})
        if not results or results.get("encountered-vir-error"):
            raise RuntimeError("no verification result")
        self.version = out.get("verus", {}).get("version", "")
        fails = self.failures(report, errors)
        if fails:
            # A second opinion: more resources, another seed.
            out2, diags2 = self.verus(extra=["--rlimit", "60", "--smt-option", "smt.random_seed=7"])
            errors2 = [d for d in diags2 if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            fails2 = self.failures(report, errors2)
            fails = {k: v for k, v in fails2.items() if k in fails}
        if self.thorough:
            # The same obligations under another solver seed: how stable are the proofs?
            out3, diags3 = self.verus(extra=["--smt-option", "smt.random_seed=11"])
            self.cmd = self.cmd.replace(" --smt-option smt.random_seed=11", "")
            errors3 = [d for d in diags3 if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            self.other_seed = {"seed": 11, "not_reproved": sorted(k for k in self.failures(report, errors3) if k not in fails)}
            vac = sh([sys.executable, os.path.join(V, "tools/vacuity.py"), self.gen + "-vac", os.path.join(WORK, "vx-target/debug/vx")])
            shutil.rmtree(self.gen + "-vac", ignore_errors=True)
            try:
                self.vacuity = json.loads(vac.stdout.decode(errors="replace"))
            except ValueError:
                self.vacuity = {"error": vac.stderr.decode(errors="replace")[-500:]}
        self.collect(report, out, fails, demote, reasons, os.path.join(self.gen, "log"))
        shutil.rmtree(os.path.join(self.gen, "log"), ignore_errors=True)

    def is_verification(self, d):
        m = d["message"]
        return d.get("code") is None and (any(x in m for x in VERUS_ERRORS) or any(x in m for x in RLIMIT))

    def failures(self, report, errors):
        res = {}
        for d in errors:
            keys = self.locate(report, d) or ["(specification)"]
            # The last hit of a precondition failure is the callee; the primary
            # span of others may be a specification line of the same function.
            for k in keys[:1]:
                res.setdefault(k, []).append(d)
        return res

    def collect(self, report, out, fails, demote, reasons, logdir):
        broken = {}
        for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                broken[f["function"]] = f
        self.smt_ms = out.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        counts = self.count_obligations(logdir)
        seen = set()
        for f in report["functions"]:
            k = f["key"]
            if f.get("external_body"):
                self.trusted.append(f"{k} ({f.get('src')}): body not verified, contract assumed")
                continue
            seen.add(k)
            if f["demoted"] or k in demote:
                why = reasons.get(k) or "; ".join(map(str, f["problems"]))[:300] or "outside the verifier's reach"
                self.undecided[k] = why
            elif k in fails:
                if all(any(x in d["message"] for x in RLIMIT) for d in fails[k]):
                    self.undecided[k] = "solver resource limit"
                else:
                    self.failed[k] = fails[k]
            else:
                self.proved[k] = counts.get("lib::" + k, 0)
        for k in fails:
            if k not in seen:
                self.notes.append(f"a lemma of the specification does not verify: {fails[k][0]['message']}")
        self.lemmas = {k[5:]: n for k, n in counts.items() if k[5:] not in seen and not k.startswith("lib::stubs::")}
        for k in self.wanted:
            if k not in seen and k not in self.lemmas and not k.startswith("*"):
                self.undecided[k] = "not found in the current source"
        self.obligations = counts
        self.functions = {f["key"]: f for f in report["functions"]}

    def count_obligations(self, logdir):
        """Labelled assertions of the verification conditions, per function."""
        counts = {}
        if not os.path.isdir(logdir):
            return counts
        for fn in os.listdir(logdir):
            if not fn.endswith(".air"):
                continue
            cur, after = None, False
            for line in open(os.path.join(logdir, fn), errors="replace"):
                if line.startswith(";; "):
                    m = re.match(r";; (Function-[A-Z]\w*|Spec-Termination|Loop-\w+|[A-Z][A-Za-z]*-?[A-Za-z-]*) (\S+)$", line.rstrip())
                    if m:
                        cur = m.group(2) if m.group(1) in ("Function-Def", "Function-Termination") else None
                        after = False
                    elif re.match(r";; [A-Z]", line):
                        cur = None
                elif cur:
                    t = line.strip()
                    if after and t.startswith('("'):
                        counts[cur] = counts.get(cur, 0) + 1
                    after = t == "(assert"
        return counts


# ---------------------------------------------------------------------------
# The bounded part
# ---------------------------------------------------------------------------
class Bounded:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.error, self.violations, self.runs, self.findings = None, [], [], []
        self.harness_errors = 0
        self.evaluations = self.distinct = 0
        self.samples = []
        self.bin = None

    def build(self):
        t = os.path.join(WORK, "target")
        ok, err = cargo_build(os.path.join(V, "harness/Cargo.toml"), t)
        if not ok:
            self.error = "building the harness against the current source failed: " + err[-3000:]
            return False
        self.exe = os.path.join(t, "debug/harness")
        if self.prop in ("P15", "P19"):
            ok, err = cargo_build(os.path.join(REPO, "Cargo.toml"), t, ["--bin", "avdl"])
            if not ok:
                self.error = "building the avdl command failed: " + err[-3000:]
                return False
            self.bin = os.path.join(t, "debug/avdl")
        return True

    def sweep(self, seed, secs, cases, max_fail=3):
        scratch = os.path.join(WORK, f"scratch-{self.prop}")
        replays = os.path.join(WORK, "replays")
        os.makedirs(scratch, exist_ok=True)
        os.makedirs(replays, exist_ok=True)
        cmd = [self.exe, "run", self.prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--max-fail", str(max_fail),
               "--scratch", scratch, "--replays", replays, "--tier", self.tier]
        if self.bin:
            cmd += ["--bin", self.bin]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        self.harness_errors += err.count(b"HARNESS-ERROR")
        if b"HARNESS-ERROR" in err:
            log(err.decode(errors="replace").split("HARNESS-ERROR", 1)[1][:300])
        lines = [l for l in out.decode(errors="replace").split("\n") if l.startswith("{")]
        d = None
        if lines:
            try:
                d = json.loads(lines[-1])
            except ValueError:
                d = None
        if d is None:
            self.crash(p.returncode, seed, os.path.join(scratch, str(p.pid)))
        else:
            self.evaluations += d["evaluations"]
            self.distinct += d["distinct"]
            if not self.samples:
                self.samples = d["samples"]
            self.runs.append({"seed": seed, "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct"], "wall_s": round(d["wall_s"], 2)})
            self.violations += d["violations"]
        shutil.rmtree(scratch, ignore_errors=True)

    def crash(self, code, seed, dir):
        """The process died: find the case that killed it."""
        for f in sorted(os.listdir(dir)) if os.path.isdir(dir) else []:
            if not f.startswith("current-"):
                continue
            try:
                i = int(open(os.path.join(dir, f)).read())
            except ValueError:
                continue
            cmd = [self.exe, "one", self.prop, "--seed", str(seed), "--index", str(i)] + (["--bin", self.bin] if self.bin else [])
            try:
                r = sh(cmd, timeout=60)
                bad = r.returncode < 0 or r.returncode == 1
                how = f"exit status {r.returncode}"
            except subprocess.TimeoutExpired:
                bad, how = True, "no answer within 60 s"
            if bad:
                path = os.path.join(WORK, "replays", f"{self.prop}-{seed}-{i}.json")
                json.dump({"property": self.prop, "seed": seed, "index": i, "fails": [how], "rerun": " ".join(cmd)}, open(path, "w"), indent=1)
                self.violations.append({"index": i, "replay": path, "fails": [how]})
                return
        self.error = f"the harness ended with status {code} and no case reproduces it"

    def known(self):
        """Listed findings: still failing in exactly the listed way?"""
        data = json.load(open(os.path.join(V, "known_findings.json")))
        for k in data["findings"]:
            if self.prop not in k["properties"]:
                continue
            d = os.path.join(WORK, f"known-{self.prop}", k["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for p, t in k["files"].items():
                os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
                open(os.path.join(d, p), "w").write(t)
            got = {}
            r = sh([self.exe, "convert", os.path.join(d, k["main"])])
            try:
                got = json.loads(r.stdout.decode(errors="replace"))
                cur = got.get("ok")
                for seg in [s for s in k["pointer"].split("/") if s]:
                    cur = cur[int(seg)] if isinstance(cur, list) else cur.get(seg)
            except Exception as e:
                cur = f"unreadable: {e}"
            same = lambda a, b: json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
            if k.get("error_is_right") and "err" in got:
                continue
            if same(cur, k["wrong"]):
                self.findings.append(k)
            elif not same(cur, k["right"]):
                path = os.path.join(WORK, "replays", f"{self.prop}-{k['id']}.json")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                json.dump({"property": self.prop, "probe": k, "got": cur}, open(path, "w"), indent=1)
                self.violations.append({"index": -1, "replay": path, "fails": [f"probe {k['id']}: got {json.dumps(cur)[:300]}"]})
            shutil.rmtree(os.path.join(WORK, f"known-{self.prop}"), ignore_errors=True)


def main():
    if "--setup" in sys.argv:
        os.makedirs(WORK, exist_ok=True)
        ok1, e1 = cargo_build(os.path.join(V, "vx/Cargo.toml"), os.path.join(WORK, "vx-target"))
        ok2, e2 = cargo_build(os.path.join(V, "harness/Cargo.toml"), os.path.join(WORK, "target"))
        log(e1, e2)
        sys.exit(0 if ok1 and ok2 else 1)
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    attribution = json.load(open(os.path.join(V, "specs/attribution.json")))
    wanted = attribution.get(prop, [])
    ded = Deduction(prop, wanted, tier == "thorough")
    th = threading.Thread(target=ded.run)
    th.start()
    b = Bounded(prop, tier, seed)
    budget = json.load(open(os.path.join(V, "specs/bounds.json")))
    bound = budget.get(prop, budget["default"])[tier]
    if b.build():
        b.known()
        if not b.violations:
            b.sweep(seed, bound["secs"], bound["cases"])
    th.join()

    named = set(wanted)
    if "*panics" in named:
        # Every function under contract counts, for its panic obligations.
        wanted = [k for k in wanted if k != "*panics"] + sorted(k for k in getattr(ded, "functions", {}) if k not in named and not ded.functions[k].get("external_body"))
    failed = {k: v for k, v in ded.failed.items() if k in wanted}
    for k in list(failed):
        if k not in named:
            failed[k] = [d for d in failed[k] if any(x in d["message"] for x in PANICS)]
            if not failed[k]:
                del failed[k]
    lines = []
    if failed and b.error is None and not b.violations:
        # Look harder for an input that shows what the failed obligation says.
        for s in range(1, 4):
            b.sweep(seed + 1000 * s, bound["secs"], bound["cases"])
            if b.violations:
                break
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    obligations_text = []
    for k, ds in failed.items():
        f = ded.functions[k]
        for d in ds:
            obligations_text.append(f"{k} ({f['src']}:{f['src_lines'][0]}): {d['message']}")
    if b.violations:
        for v in b.violations[:3]:
            if failed:
                try:
                    r = json.load(open(v["replay"]))
                    r["failed_obligations"] = obligations_text
                    json.dump(r, open(v["replay"], "w"), indent=1)
                except Exception:
                    pass
            log(f"  {v['fails'][0][:600]}")
            lines.append(f"VIOLATION property={prop} replay={v['replay']}")
    elif failed:
        path = os.path.join(WORK, "replays", f"{prop}-obligations.json")
        json.dump({"property": prop, "failed_obligations": obligations_text,
                   "verifier_output": [(d.get("rendered") or d["message"]) for ds in failed.values() for d in ds],
                   "checker": ded.cmd, "searched": b.runs}, open(path, "w"), indent=1)
        for t in obligations_text[:6]:
            log("  failed obligation: " + t)
        lines.append(f"VIOLATION property={prop} replay={path} {NOINPUT}")

    for k in b.findings:
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    und = {k: w for k, w in ded.undecided.items() if k in wanted}
    for k, w in und.items():
        log(f"UNDECIDED: {k}: {w} (left to the bounded part)")
    if ded.error:
        log(f"UNDECIDED: deduction gave no result: {ded.error} (left to the bounded part)")
    for n in ded.notes:
        log("NOTE: " + n)
    proved = {k: ded.proved[k] for k in wanted if k in ded.proved}
    lemmas = {k: ded.lemmas[k] for k in wanted if k in getattr(ded, "lemmas", {})}
    n_proved = sum(proved.values()) + sum(lemmas.values())
    n_failed = sum(ded.obligations.get("lib::" + k, 1) for k in failed) if failed else 0
    n_und = len(und)
    if not ded.error and wanted and n_proved + n_failed == 0 and n_und == 0:
        log("NOTE: no obligation was generated for this property")
    manifest = json.load(open(os.path.join(V, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "proof")
    stub_axioms = trusted_scan()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
        "coverage": {
            "obligations": n_proved + n_failed + n_und,
            "discharged": n_proved,
            "back_end": "Verus " + ded.version + " (Z3)",
            "checker_cmd": ded.cmd + f"   (in {ded.gen}, generated from {REPO}/src by vx)",
            "solver_ms_whole_unit": ded.smt_ms,
            "functions_under_contract": {k: {"obligations": n, "source": f"{ded.functions[k]['src']}:{ded.functions[k]['src_lines'][0]}"} for k, n in proved.items()},
            "lemmas": lemmas,
            "failed": obligations_text,
            "other_solver_seed": ded.other_seed,
            "must_fail_run": ded.vacuity,
            "contracts_assumed_of_undecided_functions": sorted(ded.undecided),
            "undecided": und if not ded.error else {"*": ded.error},
            "trusted_base": ["Verus, Z3, rustc", "the extraction by vx (see DESIGN.md: what it drops and rewrites)"] + stub_axioms + sorted(ded.trusted),
            "bounded": "the part below is a bounded run of the real code and is not counted as proved",
            "evaluations": b.evaluations,
            "distinct_nontrivial": b.distinct,
            "rule": budget.get("rules", {}).get(prop, budget["rule"]),
            "samples": b.samples,
            "runs": b.runs,
            "harness_errors": b.harness_errors,
            "known_findings": [k["id"] for k in b.findings],
        },
        "assumptions": budget["assumptions"],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1)
    shutil.rmtree(ded.gen, ignore_errors=True)
    log(f"{prop} {tier}: {n_proved} obligations discharged in {len(proved)} functions and {len(lemmas)} lemmas, {len(und)} functions undecided, "
        f"{len(failed)} failed; bounded: {b.evaluations} cases ({b.distinct} distinct); {ev['wall_s']} s")
    if b.error and not lines:
        log("ERROR: " + b.error)
        sys.exit(2)
    for l in lines:
        log(l)
    sys.exit(1 if lines else 0)


def trusted_scan():
    """Every axiom and bodiless contract of the stand-ins, by name."""
    text = open(os.path.join(V, "specs/stubs.rs")).read()
    names, pend = [], False
    owner = ""
    for l in text.split("\n"):
        m = re.match(r"impl.*?(?:for )?(\w+)(?:<.*)?\s*\{?\s*$", l)
        if l.startswith("impl"):
            m = re.match(r"impl(?:<[^{]*?>)?\s+(?:(\w+)(?:<[^{]*>)?\s+for\s+)?(\w+)", l)
            owner = (m.group(2) + "::") if m else ""
        elif l.startswith("}"):
            owner = ""
        if "external_body" in l:
            pend = True
        m = re.search(r"\b(?:fn|struct)\s+(\w+)", l)
        if m and pend:
            names.append((owner if "fn" in l else "") + m.group(1))
            pend = False
        elif m and re.search(r"\b(axiom|broadcast axiom) fn|broadcast axiom", l):
            names.append("axiom " + m.group(1))
        elif "assume_specification" in l:
            names.append("assumed " + l.strip()[:100])
    return ["assumed contracts of the standard library, serde_json, indexmap and miette stand-ins (specs/stubs.rs): " + ", ".join(names)]


if __name__ == "__main__":
    main()
