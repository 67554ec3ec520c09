"""Writes MANIFEST.json from props.py."""
import json, os
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": props.HOOKS,
    "checks": [{"property": p, "quick_cmd": "./check.sh %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p, "evidence_file": "evidence/%s.json" % p,
                "technique": c["technique"], "level": c["level"], "level_note": c["note"], "theorems": c.get("theorems", [u for s in c.get("proofs", []) for u in (["kani:%s::%s" % (s[1], h) for h in s[2]] if s[0] == "kani" else ["verus:" + s[1]])])}
               for p, c in sorted(props.PROPS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(props.NOT_APPLICABLE.items())],
    "notes": props.NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
have = {json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
listed = set(props.PROPS) | set(props.NOT_APPLICABLE)
assert have == listed, have ^ listed
