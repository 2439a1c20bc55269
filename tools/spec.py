#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note=None, level="exploration", technique=None,
         level_note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level=level, technique=technique, level_note=level_note, state=state or []))

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

def design(claimed, na):
    """DESIGN.md = tools/DESIGN.head.md + per-property notes + findings + planted bugs."""
    ns = {}
    exec(open(os.path.join(HERE, "tools", "design_notes.py")).read(), ns)
    t = []
    for p in P:
        if p["id"] in claimed:
            n = ns["D"].get(p["id"], ("TODO", "", ""))
            t.append(f"### {p['id']} {p['title']}\n* Generated: {n[0]}\n* Oracle: {n[1]}\n* Bounds / not covered: {n[2]}\n")
    for x in na: t.append(f"### {x['property']} not claimed\n{x['reason']}\n")
    fs = []
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        k = json.loads(l); fs.append("* " + k.get("line", f"{k['status']}: property={k['property']} {k.get('what','')}"))
    ss = []
    ct = os.path.join(HERE, "tools", "catches.json")
    ct = json.load(open(ct)) if os.path.exists(ct) else {}
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        ss.append(f"* `{d}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. Caught by: {ct.get(d, 'not confirmed')}.")
    h = open(os.path.join(HERE, "tools", "DESIGN.head.md")).read()
    h = h.replace("@@TABLE@@", "\n".join(t)).replace("@@FINDINGS@@", "\n".join(fs)).replace("@@SEEDS@@", "\n".join(ss))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(h)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        src = os.path.join(HERE, "harness", p["id"] + ".cpp")
        if not os.path.exists(src):
            na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet (work in progress)")})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["level_note"],
        })
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na, "notes": NOTES}
    if HOOKS: m["hooks"] = HOOKS
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    design({c["property"] for c in checks}, na)
    print(len(checks), "checks;", len(na), "not claimed:", [x["property"] for x in na])
main()
