# helper: append "fixed" entries to known_findings.jsonl from a commit subject:  python3 tools/fixed.py C02 <commit> "what"
import json, sys
pid, commit, what = sys.argv[1:4]
with open("/verif/known_findings.jsonl", "a") as f: f.write(json.dumps({"property": pid, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={pid} {commit} {what}"}) + "\n")
