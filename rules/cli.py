"""What the command-line program feeds to the parser, the optimizer and the writers, on every path through main."""
from absint import Interp, TooComplex, NONE
from terms import show, T, occurs, walk

BOUND = ["read_json_instance", "Parser::new", "Parser::parse", "LBFOptimizer::new", "LBFOptimizer::solve", "compose_json_solution", "write_json_output", "write_svg", "s_layout_to_svg", "init_logger", "<LBFConfig as Default>::default"]
ODD = {"lv", "jf", "jfold", "bot", "fold", "collect", "rand", "unk", "hole"}


def flat(events):
    for e in events:
        if e[0] == "loop":
            yield ("loop", e[1])
        elif e[0] != "while":
            yield e


def pay(x):
    return ("f", ("as", x, "Some"), "0")


def main(P, cfg):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    if cfg == "f64":
        return res      # the program is analysed in its default configuration only
    f = P.fn("main")
    if f is None or any(P.fn(b) is None for b in BOUND) or (set(BOUND) & P.resigned):
        res["undecided"].append("main or one of the functions it calls was not found")
        return res
    I = Interp(P, boundary=BOUND)
    try:
        paths = I.summarize("main", force=True)
    except TooComplex as e:
        res["undecided"].append("summary too complex: %s" % e)
        return res
    res["visited"] = sorted(I.visited)
    at = "%s:%s" % (f.file, f.line)

    def want(what, exp, act):
        res["obligations"] += 1
        if act == exp:
            return
        if act is not None and any(isinstance(u, tuple) and u and u[0] in ODD for u in walk(act)):
            res["undecided"].append("%s: %s" % (what, show(act)[:200]))
            return
        res["violations"].append({"fn": "main", "file": at, "clause": what, "expected": show(exp)[:600], "actual": show(act)[:600] if act is not None else "no such call on this path", "construct": "main: " + what})

    for p in paths:
        if p.outcome != "ret":
            continue
        res["sites"] += 1
        ev = {}
        loops = []
        for e in flat(p.events):
            if e[0] == "loop":
                loops.append(e[1])
            else:
                ev.setdefault(e[0], []).append(e[1])
        args = None
        for k, v in p.facts.items():
            if k[0] == "is" and k[1][0] == "f" and k[1][2] == "config_file" and len(v) == 1:
                args, given = k[1][1], list(v)[0] == "Some"
        if args is None:
            res["undecided"].append("the command line arguments were not recognised")
            continue
        if given:
            cs = [k[1] for k, v in p.facts.items() if k[0] == "is" and v == frozenset(["Ok"]) and k[1][0] == "call" and k[1][1].startswith("serde_json::") and occurs(("f", ("as", ("f", args, "config_file"), "Some"), "0"), k[1])]
            if len(cs) != 1:
                res["undecided"].append("the way the configuration is read was not recognised")
                continue
            C = ("f", ("as", cs[0], "Ok"), "0")
        else:
            C = ("call", "<LBFConfig as Default>::default", ())
        opt = (ev.get("LBFOptimizer::new") or [None])[0]
        if opt is None:
            want("the optimizer", ("call", "LBFOptimizer::new", ()), None)
            continue
        inst, oc, rng = opt
        want("configuration of the optimizer", C, oc)
        seed = ("f", C, "prng_seed")
        s = p.facts.get(("is", seed))
        if s == frozenset(["Some"]):
            want("random generator when a seed is configured", ("call", "SeedableRng::seed_from_u64", (pay(seed),)), rng)
        elif s is None:
            want("random generator", ("call", "SeedableRng::seed_from_u64", (pay(seed),)), rng)
        reads = ev.get("read_json_instance") or []
        if len(reads) != 1 or not occurs(("f", args, "input_file"), reads[0][0]):
            want("file the instance is read from", ("f", args, "input_file"), reads[0][0] if reads else None)
            continue
        J = ("call", "read_json_instance", tuple(reads[0]))
        tol = ("f", C, "poly_simpl_tolerance")
        s = p.facts.get(("is", tol))
        ps = ("agg", "PolySimplConfig", "Enabled", (("tolerance", pay(tol)),)) if s == frozenset(["Some"]) else ("agg", "PolySimplConfig", "Disabled", ())
        if s is not None:
            want("instance given to the optimizer", ("call", "Parser::parse", (("call", "Parser::new", (ps, ("f", C, "cde_config"), T)), J)), inst)
        sol = ("call", "LBFOptimizer::solve", (("call", "LBFOptimizer::new", tuple(opt)),))
        cmpz = (ev.get("compose_json_solution") or [None])[0]
        out = (ev.get("write_json_output") or [None])[0]
        if cmpz is None or out is None:
            want("solution file", ("call", "write_json_output", ()), None)
            continue
        want("solution that is written", sol, cmpz[0])
        want("instance the solution is written for", inst, cmpz[1])
        j = out[0]
        if j[0] == "agg":
            d = dict(j[3])
            want("instance in the output", J, d.get("instance"))
            want("solution in the output", ("call", "compose_json_solution", tuple(cmpz)), d.get("solution"))
            want("configuration in the output", C, d.get("config"))
        else:
            res["undecided"].append("output: " + show(j)[:200])
        svg = [l for l in loops if occurs_call("write_svg", l)]
        single = ev.get("write_svg")
        if not svg and not single:
            want("one drawing per layout", ("call", "write_svg", ()), None)
        for l in svg:
            if l[0] != ("f", sol, "layout_snapshots"):
                want("layouts that are drawn", ("f", sol, "layout_snapshots"), l[0])
    res["samples"].append({"function": "main", "at": at, "paths": res["sites"], "obligations": res["obligations"]})
    return res


def occurs_call(name, t):
    return any(isinstance(u, tuple) and u and u[0] == name for u in walk(t)) or any(u == name for u in walk(t)) or name in str(t)


def seed(P, cfg):
    """only the part of the above that concerns the random generator"""
    res = main(P, cfg)
    res["violations"] = [v for v in res["violations"] if "random generator" in v["clause"]]
    return res
