#!/usr/bin/env python3
"""Must-fail run: with `assert(false)` at the end of every function under
contract, every one of them has to fail. One that verifies has contradictory
assumptions (or never returns)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1] if len(sys.argv) > 1 else "/tmp/vxvac"
exe = next(p for p in (V + "/work/vx-target/debug/vx", V + "/vx/target/debug/vx") if os.path.exists(p)) if len(sys.argv) < 3 else sys.argv[2]
os.makedirs(out, exist_ok=True)
subprocess.run([exe, "--repo", os.environ.get("AVDL_REPO", "/repo"), "--specs", V + "/specs", "--out", out], env=dict(os.environ, VX_VACUITY="1"), check=True)
rep = json.load(open(out + "/report.json"))
r = subprocess.run(["verus", "--crate-type=lib", "--edition", "2024", "--triggers-mode", "silent", "lib.rs", "--", "--error-format=json"], cwd=out, capture_output=True)
failed = set()
for l in r.stderr.decode(errors="replace").split("\n"):
    try: d = json.loads(l)
    except ValueError: continue
    if d.get("level") != "error": continue
    for s in d.get("spans", []):
        for f in rep["functions"]:
            if f.get("gen_lines") and os.path.basename(s["file_name"]) == f["gen_file"] and f["gen_lines"][0] <= s["line_start"] <= f["gen_lines"][1] and ("assertion failed" in d["message"] or "rlimit" in d["message"]):
                failed.add(f["key"])
vac = [f["key"] for f in rep["functions"] if not f.get("external_body") and not f.get("demoted") and f["key"] not in failed]
print(json.dumps({"checked": len(rep["functions"]), "failed_as_expected": len(failed), "vacuous": vac}, indent=1))
sys.exit(1 if vac else 0)
