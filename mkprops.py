#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, state=state))

LEX = "ratel/src/lexer/mod.rs"
PARSER = ["ratel/src/parser/mod.rs", "ratel/src/parser/expression.rs", "ratel/src/parser/nested.rs", "ratel/src/parser/statement.rs", "ratel/src/parser/function.rs"]
GENF = ["ratel-codegen/src/lib.rs", "ratel-codegen/src/expression.rs", "ratel-codegen/src/statement.rs", "ratel-codegen/src/function.rs"]
SUBSET = "the supported subset of ECMAScript (DESIGN.md lists what ratel leaves out)"

exec(open(os.path.join(H, "props_table.py")).read())

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo: every monitor watches the public interface of the crates. Fixes of genuine defects are the fix: commits in /repo, listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
