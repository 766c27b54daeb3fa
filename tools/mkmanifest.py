"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
import subprocess
HOOK = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], text=True).split()
NOTE = {
    "C19": "The probability part is decided statistically: per position, the count of ones in n draws has to lie within six standard deviations of the specified mean.",
    "C20": "Real arithmetic is specified as scaled integers with error bounds; kernels whose order the bounds do not decide may be marked or not.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 harness/build.py",
    "hooks": {"guard": "WISARDPKG_VERIF",
              "enable": "harness/build.py compiles the Python extension and the C++ drivers from /repo's sources with -DWISARDPKG_VERIF",
              "source_commits": HOOK},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification checked with TLC; trace validation of recorded executions against it (conformance)",
        "level": "model_checking",
        "level_note": ("Bounded models of the specification are explored exhaustively by TLC; conformance of the code is decided on the "
                       "executions recorded from it (random and specification-generated), each validated event by event by TLC. "
                       + NOTE.get(p["id"], "")).strip(),
    } for p in props],
    "not_applicable": [],
    "notes": "The specification is in spec/ (TLA+), bound to the code by spec/Trace.tla and harness/. See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
