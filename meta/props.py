#!/usr/bin/env python3
"""Generates properties.jsonl, claims.json and MANIFEST.json from the table below (run from /verif after an extraction)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import prog, spec

H, I, C, PR = "histories", "inputs", "configurations", "programs"
TESTS = "The 11 tests only run the LBF heuristic forward on fixed instances with a fixed seed: "
PROPS = []


def p(id, title, statement, over, text, why, groups=(), rules=(), state=(), observe=(), na=None, level_note=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=TESTS + why, groups=list(groups), rules=list(rules), state=state, observe=observe, na=na, level_note=level_note))


exec(open(os.path.join(V, "meta", "table.py")).read())

CJ = "jagua-rs/src/"


def main():
    P = prog.load(os.path.join(V, "build", "out"))
    cons = [c for c, _ in spec.parse_all(os.path.join(V, "contracts"))]
    groups = {c.group for c in cons}
    props, claims, checks, na = [], {}, [], []
    for q in PROPS:
        mech, files = [], []
        for c in cons:
            if c.group in q["groups"]:
                f = P.fn(c.fn)
                if f is None:
                    raise SystemExit("no such function: " + c.fn)
                w = f.file[f.file.index("/repo/") + 6:] if "/repo/" in f.file else f.file
                if not any(m["name"] == c.fn for m in mech):
                    mech.append({"name": c.fn, "where": w})
                if w not in files:
                    files.append(w)
        for g in q["groups"]:
            assert g in groups, g
        for x in q["state"]:
            if isinstance(x, str):
                raise SystemExit("state")
        props.append({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                      "anchors": {"files": files or [m.split(":")[0] for m in q["observe"]] or ["jagua-rs/src"], "state": [{"name": a, "meaning": b, "where": c_} for a, b, c_ in q["state"]],
                                  "mechanism": mech[:16] or [{"name": m, "where": m} for m in q["observe"]], "observe_at": list(q["observe"]), "hook_needed": False}})
        if q["na"]:
            na.append({"property": q["id"], "reason": q["na"]})
            continue
        claims[q["id"]] = {"groups": q["groups"], "rules": q["rules"],
                           "rule": "Rule: the summary of every function under contract equals its contract on every path (groups %s)%s." % (
                               ", ".join(q["groups"]), "; structural rules " + ", ".join(q["rules"]) if q["rules"] else "")}
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s" % q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                       "technique": "static analysis: path-sensitive value-numbering dataflow (abstract interpretation) over the compiler's type-checked MIR, loops summarised as folds; each function summary compared with its contract"
                       + ("; plus IR queries: " + ", ".join(q["rules"]) if q["rules"] else ""),
                       "level": "other", "level_note": q["level_note"] or "decides the property for all inputs and histories modulo the library models, exact real arithmetic and the decomposition into per-function contracts (DESIGN.md)"})
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in props:
            f.write(json.dumps(x) + "\n")
    json.dump(claims, open(os.path.join(V, "claims.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "bash extract.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    used = {g for q in PROPS for g in q["groups"]}
    print("groups without property:", sorted(groups - used))


main()
