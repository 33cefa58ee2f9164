#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and lfsa/registry.json from the property files of this directory."""
import json, os, re, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
props = []
for f in sorted(glob.glob(os.path.join(HERE, "p_*.py"))):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    props += ns["PROPS"]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids), ids
props.sort(key=lambda p: p["id"])
reg, checks, na = {}, [], []
with open(os.path.join(VERIF, "properties.jsonl"), "w") as out:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        mech = [dict(zip(("name", "where"), m)) for m in p["mechanism"]]
        for m in mech:
            path = m["where"].split(":")[0]
            assert os.path.exists("/repo/" + path), (p["id"], path)
        an = {"files": sorted({m["where"].split(":")[0] for m in mech} | set(p.get("files", ()))), "mechanism": mech,
              "observe_at": p.get("observe_at", []), "hook_needed": None}
        if p.get("state"):
            an["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                              "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
                              "why_tests_cant": " ".join(p["why"].split()), "anchors": an}) + "\n")
        if "rules" in p:
            reg[p["id"]] = {"level": "other", "explanation": " ".join(p["explain"].split()),
                            "assumptions": [" ".join(a.split()) for a in p.get("assume", [])],
                            "need": p.get("need", {}),
                            "rules": [{"module": r[0].split(".")[0], "function": r[0].split(".")[1], "configs": r[1]}
                                      for r in p["rules"]]}
            cmd = "python3 -m lfsa %s --tier %%s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd % "quick", "thorough_cmd": cmd % "thorough",
                           "technique": p["technique"], "level": "other",
                           "level_note": " ".join(p["note"].split())})
        else:
            na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
json.dump(reg, open(os.path.join(VERIF, "lfsa", "registry.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 -m lfsa.setup", "checks": checks, "not_applicable": na,
       "notes": "All checks are static analyses of the LLVM IR that clang emits for /repo's current sources; nothing of "
                "/repo is executed. /repo carries no hooks: its only extra commits are the fix: commits listed in "
                "known-findings.txt."}
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")

# DESIGN.md: the hand-written head, a section per property, and the planted bugs
head = open(os.path.join(HERE, "design_head.md")).read().rstrip()
L = [head, "", "## Properties decided", ""]
w = lambda s: " ".join(s.split())
for p in props:
    if "rules" not in p:
        continue
    L += ["### %s: %s" % (p["id"], p["title"]), "", "*" + w(p["statement"]) + "*", "",
          "- Technique: %s. Rules: %s." % (p["technique"], ", ".join("`%s` on %s" % (r[0], "/".join(r[1])) for r in p["rules"])),
          "- How it is decided: " + w(p["explain"]),
          "- Why tests cannot: " + w(p["why"]),
          "- Strength and limits: " + w(p["note"])]
    if p.get("assume"):
        L.append("- Assumes: " + "; ".join(w(a) for a in p["assume"]) + ".")
    L.append("")
L += ["## Properties this family cannot decide here", ""]
for p in props:
    if "na" in p:
        L.append("- **%s %s**: %s" % (p["id"], p["title"], w(p["na"])))
L += ["", "## Planted bugs", "", "Each is caught by the check of its property unless it says otherwise.", "",
      "| seed | property | needs | caught |", "|---|---|---|---|"]
miss = {}
mf = os.path.join(HERE, "missed.txt")
if os.path.exists(mf):
    for l in open(mf):
        if l.strip():
            k, _, v = l.strip().partition(" ")
            miss[k] = v
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    L.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], "no: " + miss[i] if i in miss else "yes"))
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(L) + "\n")
