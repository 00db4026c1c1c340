#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and bin/checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.path[:0] = [H + "/bin", H + "/tools/meta"]
from checks import CHECKS
from props import PROPS, NOT_APPLICABLE
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)),
                ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=p["technique"], level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks rewrite its sources through a build overlay at check time (see DESIGN.md)."),
          open(H + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not claimed")

# DESIGN.md: head + one section per property + tail
out = [open(H + "/tools/meta/design_head.md").read().rstrip() + "\n"]
for p in PROPS:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in CHECKS:
        out.append("Not claimed: %s\n" % NOT_APPLICABLE.get(i, "no check has been built for it yet"))
        continue
    c = CHECKS[i]
    out.append("*Decided by*: %s.\n" % p["technique"])
    out.append("*Enumerated* (%s): %s.\n" % (", ".join(p["over"]), p["quant"].rstrip(".")))
    out.append("*Oracle and limits*: %s\n" % p["note"])
    out.append("*Why tests do not settle it*: %s\n" % p["why"])
    out.append("*Observed at*: %s. *Code*: %s. *Harness*: `harness/zzverif/checks/%s`; %s%s; budgets %d s / %d s.\n" % (
        ", ".join("`%s`" % o for o in p["observe"]) or "exported API", ", ".join("`%s`" % f for f in p["files"]), c["main"],
        "rewritten packages: " + (", ".join("`%s`" % (r or "hypercache") for r in c["rewrite"]) or "none (sequential enumeration)"),
        "; also under the race detector" if c.get("race") else "", c["budget"]["quick"], c["budget"]["thorough"]))
tail = open(H + "/tools/meta/design_tail.md").read()
fs = [json.loads(l) for l in open(H + "/known_findings.jsonl") if l.strip()]
tail = tail.replace("<!--FINDINGS-->", "\n".join("* **%s** (%s) %s" % (f["property"], f["status"], f["what"]) for f in fs))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
sd = H + "/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = sd + "/" + d + "/meta.json"
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), m.get("caught_by", m["property"])))
tail = tail.replace("<!--SEEDS-->", "\n".join(rows))
out.append(tail)
open(H + "/DESIGN.md", "w").write("\n".join(out))
