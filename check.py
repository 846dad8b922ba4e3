#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--no-extract]
Decides one property by static analysis of /repo's current working tree:
 1. extract.sh compiles the tree with a rustc driver that dumps the type-checked MIR;
 2. every function under contract is summarised (path-sensitive dataflow over a value-numbering term domain) and its
    summary compared with the contract (contracts/*.con); the extra rules (rules/*.py) walk the same IR;
 3. evidence/<property>.json says what was analysed.
Exit 0: every obligation that applies held.  Exit 1: VIOLATION line and a report naming the construct."""
import json, os, signal, subprocess, sys, time, importlib, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.path.insert(0, os.path.join(V, "rules"))
sys.setrecursionlimit(100000)


BUDGET, PER = 600, 60     # seconds: whole check, one function


class OutOfTime(Exception):
    pass


def on_alarm(*_):
    raise OutOfTime("analysis budget")


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    claims = json.load(open(os.path.join(V, "claims.json")))
    claim = claims[pid]
    out = os.environ.get("VP_OUT", os.path.join(V, "build", "out"))
    if "--no-extract" not in sys.argv:
        r = subprocess.run(["bash", os.path.join(V, "extract.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("ERROR: /repo does not compile (or the extractor failed); nothing decided")
            return 2
    import prog, spec
    configs = ["f32"] + (["f64"] if tier == "thorough" else [])
    viols, und, samples = [], [], []
    stats = {"contracts": 0, "functions": set(), "paths": 0, "clauses": 0, "analysed": set(), "rule_obligations": 0, "rule_sites": 0}
    for cfg in configs:
        P = prog.load(out, f64=(cfg == "f64"))
        allcons = spec.parse_all(os.path.join(V, "contracts"))
        ck = spec.Checker(P, [c for c, _ in allcons])
        for c, macros in allcons:
                if c.group not in claim["groups"]:
                    continue
                if cfg == "f64" and P.fn(c.fn) is None:
                    continue        # lbf is analysed in its default configuration only
                if time.time() - t0 > BUDGET:
                    und.append("%s: time budget used up" % c.fn)
                    continue
                stats["contracts"] += 1
                signal.alarm(PER)
                try:
                    r = ck.check(c, macros)
                except Exception as e:
                    if os.environ.get("VP_DEBUG"):
                        traceback.print_exc()
                    und.append("%s: engine: %s %s" % (c.fn, type(e).__name__, str(e)[:200]))
                    continue
                finally:
                    signal.alarm(0)
                stats["functions"].add(c.fn)
                stats["paths"] += r["paths"]
                stats["clauses"] += r["clauses"]
                stats["analysed"].update(r.get("visited", []))
                und += ["%s: %s" % (c.fn, u[:300]) for u in r["undecided"]]
                for v in r["violations"]:
                    v["config"] = cfg
                    v["rule"] = "contract"
                    viols.append(v)
                if len(samples) < 6 and r["paths"]:
                    samples.append({"function": c.fn, "at": r.get("file"), "paths": r["paths"], "clauses": r["clauses"], "contract": "%s" % c.where})
        for name in claim.get("rules", []):
            mod, fn = name.split(".")
            signal.alarm(4 * PER)
            try:
                rr = getattr(importlib.import_module(mod), fn)(P, cfg)
            except Exception as e:
                if os.environ.get("VP_DEBUG"):
                    traceback.print_exc()
                und.append("%s: engine: %s %s" % (name, type(e).__name__, str(e)[:200]))
                continue
            finally:
                signal.alarm(0)
            stats["rule_obligations"] += rr["obligations"]
            stats["rule_sites"] += rr.get("sites", 0)
            stats["analysed"].update(rr.get("visited", []))
            und += ["%s: %s" % (name, u) for u in rr.get("undecided", [])]
            for v in rr["violations"]:
                v["config"] = cfg
                v["rule"] = name
                viols.append(v)
            samples += rr.get("samples", [])[:3]
    # one report per construct
    seen, uniq = set(), []
    for v in viols:
        k = (v.get("fn"), v.get("clause"), v.get("expected"), v.get("actual"), v.get("construct"))
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    new, old = [], []
    for v in uniq:
        m = [k for k in known if k.get("status") == "known" and k["property"] == pid and k["fn"] == v.get("fn") and k["clause"] == v.get("clause") and k.get("actual", v.get("actual")) == v.get("actual")]
        (old if m else new).append((v, m))
    for k in sorted({m[0]["what"] for _, m in old}):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    n_ob = stats["clauses"] + stats["rule_obligations"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {
              "explanation": "Static analysis of the type-checked MIR of /repo's working tree (%s). %s" % (", ".join(configs), claim.get("rule", "")),
              "obligations": n_ob, "discharged": max(0, n_ob - len(uniq) - len(set(und))), "undecided": sorted(set(und)),
              "contracts": stats["contracts"], "functions_under_contract": sorted(stats["functions"]),
              "paths": stats["paths"], "functions_analysed": len(stats["analysed"]), "rule_sites": stats["rule_sites"], "samples": samples},
          "assumptions": ["the models of std and of the third-party collections (engine/models.py) describe their documented behaviour",
                          "floating-point operations are compared as real-number expressions"],
          "violations": len(new), "wall_s": round(time.time() - t0, 2)}
    edir = os.environ.get("VP_EVID") or os.path.join(V, "evidence")
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    if und:
        print("note: %d obligations could not be decided (not counted as violations)" % len(set(und)))
        for u in sorted(set(und))[:10]:
            print("  undecided:", u[:300])
    if new:
        path = os.path.join(edir, pid + ".violation.json")
        json.dump([v for v, _ in new], open(path, "w"), indent=1)
        for v, _ in new[:5]:
            print("  %s %s: %s" % (v.get("fn"), v.get("file") or "", v.get("clause")))
            print("     expected %s" % str(v.get("expected"))[:300])
            print("     found    %s" % str(v.get("actual"))[:300])
            for x in v.get("path", [])[:6]:
                print("       on path: %s" % x[:160])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: %d obligations on %d functions / %d paths hold (%.1fs)" % (pid, n_ob, len(stats["functions"]), stats["paths"], time.time() - t0))
    return 0


sys.exit(main())
