import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import prog, spec, time
P = prog.load(os.environ.get("VP_OUT", "/verif/build/out"))
CK = spec.Checker(P, [c for c, _ in spec.parse_all(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts"))])
for f in sys.argv[1].split(","):
    cons, macros = spec.parse_file(f)
    for c in cons:
        if len(sys.argv) > 2 and sys.argv[2] not in c.fn:
            continue
        t = time.time()
        try:
            r = CK.check(c, macros)
        except Exception as e:
            if os.environ.get('TB'): raise
            print(c.fn, 'EXC', type(e).__name__, e); continue
        print("%-60s paths=%d clauses=%d viol=%d und=%d %.2fs" % (c.fn, r["paths"], r["clauses"], len(r["violations"]), len(r["undecided"]), time.time() - t))
        for u in sorted(set(r["undecided"]))[:4]:
            print("    undecided:", u[:900])
        for v in r["violations"][:int(os.environ.get("NV","1"))]:
            print("    VIOL", v["clause"], "\n       exp:", v["expected"][:400], "\n       act:", v["actual"][:400])
            print("       diff:", v.get("diff"))
            for x in v["path"][:12]:
                print("         ?", x[:200])
