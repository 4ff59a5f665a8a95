"""Writes MANIFEST.json from the list of checks."""
import json
import pathlib

import checks

ROOT = pathlib.Path(__file__).resolve().parent.parent
TRACE = ("TLA+ specification checked with TLC; histories recorded from the real library in both modes are "
         "validated step by step against the specification by TLC (trace validation)")
NOTE = ("Every recorded call result and visible state must be the one the specification allows; the histories are a seeded "
        "sample of all histories, chosen to cover each bit, boundary and call order. Trusts TLC, the native word operators "
        "(themselves checked against their TLA+ definitions) and the driver's encoding of results.")


def main():
    props = [json.loads(line) for line in open(ROOT / "properties.jsonl")]
    out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
           "notes": "No hooks: every check observes the public interface only."}
    for p in props:
        pid = p["id"]
        if pid in checks.CHECKS:
            technique, note = checks.TEXT.get(pid, (TRACE, NOTE))
            out["checks"].append({"property": pid, "quick_cmd": f"python3 run.py {pid} quick",
                                  "thorough_cmd": f"python3 run.py {pid} thorough", "technique": technique,
                                  "level": "model_checking", "level_note": note})
        else:
            out["not_applicable"].append({"property": pid, "reason": "no check yet; its specification is under construction"})
    with open(ROOT / "MANIFEST.json", "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
