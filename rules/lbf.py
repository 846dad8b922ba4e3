"""The LBF optimizer only places what its search returned, in the state it searched, while the item is still missing."""
import re
from absint import Interp, TooComplex
from terms import walk, show, poly

PG = "<Problem as ProblemGeneric>::"
SOLVE = "LBFOptimizer::solve"
BOUND = [PG + "place_item", PG + "missing_item_qtys", PG + "create_solution", "find_lbf_placement", "SPProblem::modify_strip_in_back", "SPProblem::modify_strip_at_front", "SPProblem::modify_strip_centered", "SPProblem::fit_strip",
         "SPProblem::strip_width", "convex_hull_from_points", "SimplePolygon::new", "ProblemGeneric::placed_item_qtys", "<Instance as InstanceGeneric>::items",
         "InstanceGeneric::total_item_qty"]


def rows(events, facts, inner=False):
    """every event with the facts of the rows it lies in, through nested loops"""
    for e in events:
        if e[0] == "loop":
            for fs, evs in e[1][1]:
                yield from rows(evs, facts + list(fs), inner)
        elif e[0] == "while":
            for r in e[1]:
                yield from rows(r[1], facts + list(r[0]), True)
        else:
            yield e, facts, inner


def search_result(t):
    if t[0] == "f" and t[2] == "0" and t[1][0] == "as" and t[1][2] == "Some" and t[1][1][0] == "call" and t[1][1][1] == "find_lbf_placement":
        return t[1][1][2]
    return None


def gave_up(x):
    """the fact `find_lbf_placement(..) is None`"""
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0][0] == "is" and x[1] == frozenset(["None"]) \
        and x[0][1][:2] == ("call", "find_lbf_placement")


def solve(P, cfg):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    if cfg == "f64":
        return res
    fn = P.fn(SOLVE)
    if fn is None or any(P.fn(b) is None for b in BOUND):
        res["undecided"].append("function not found: " + ", ".join(b for b in [SOLVE] + BOUND if P.fn(b) is None))
        return res
    at = "%s:%s" % (fn.file, fn.line)
    I = Interp(P, boundary=BOUND)
    I.blur = {"find_lbf_placement": {3, 4}}
    try:
        paths = I.summarize(SOLVE, force=True)
    except TooComplex as e:
        res["undecided"].append("summary too complex: %s" % e)
        return res
    res["visited"] = sorted(I.visited)

    def bad(clause, exp, act):
        res["violations"].append({"fn": SOLVE, "file": at, "clause": clause, "expected": exp, "actual": act, "construct": SOLVE})

    placed = 0
    for p in paths:
        if p.outcome != "ret":
            continue
        for e, facts, inner in rows(p.events, list(p.facts.items())):
            if e[0] == PG + "place_item":
                placed += 1
                res["obligations"] += 3
                state, opt = e[1][0], e[1][1]
                s = search_result(opt)
                if s is None:
                    if any(isinstance(u, tuple) and len(u) == 3 and u[0] == "call" and u[1] == "find_lbf_placement" for u in walk(opt)):
                        res["undecided"].append("the placed option is computed from the search result: " + show(opt)[:120])
                    else:
                        bad("place_item(option)", "an option returned by find_lbf_placement", show(opt)[:200])
                    continue
                if s[0] != state:
                    bad("place_item(self)", "the state that was searched: " + show(s[0])[:200], show(state)[:200])
                it = s[1]
                idx = it[1][2] if it[0] == "f" and it[2] == "0" and it[1][0] == "ix" else None
                if idx is None:
                    res["undecided"].append("index of the searched item: " + show(it)[:120])
                    continue
                want = ("ix", ("call", PG + "missing_item_qtys", (s[0],)), idx)
                guard = [v for k, v in facts if k[0] == "cmp" and k[1] == want]
                if guard and not any(v == ">" for v in guard):
                    bad("guard", "%s > 0" % show(want)[:150], "placed when %s %s 0" % (show(want)[:150], guard[0]))
                elif not guard:
                    other = [k for k, v in facts if k[0] == "cmp" and any(isinstance(u, tuple) and len(u) == 3 and u[:2] == ("call", PG + "missing_item_qtys") for u in walk(k[1]))]
                    if not inner:       # the iteration that leaves the loop: its facts are those of the loop's exit condition
                        pass
                    elif not other:
                        bad("guard", "an item is placed only while it is still missing", "placed without consulting missing_item_qtys")
                    else:
                        res["undecided"].append("guard of place_item: " + show(other[0][1])[:150])
            elif e[0] in ("SPProblem::modify_strip_at_front", "SPProblem::modify_strip_centered"):
                bad(e[0], "the strip grows at its back, where it does not move what was placed", "grows with " + e[0])
            elif e[0] == "SPProblem::modify_strip_in_back":
                res["obligations"] += 1
                w = e[1][1]
                sw = ("call", "SPProblem::strip_width", (e[1][0],))
                q = poly(w)
                if len(q) == 1 and q[0][0] == ((sw, 1),):
                    if q[0][1] <= 1:
                        bad("modify_strip_in_back", "a wider strip", "new width = %s x the old width" % q[0][1])
                else:
                    res["undecided"].append("new strip width: " + show(w)[:150])
        res["obligations"] += 2
        sp = [v for k, v in p.facts.items() if k[0] == "is" and isinstance(v, frozenset) and v <= {"SP", "BP"}]
        if sp and sp[-1] == frozenset(["SP"]) and not any(e[0] == "SPProblem::fit_strip" for e in p.events):
            if any(isinstance(u, tuple) and u[:2] == ("mut", "SPProblem::fit_strip") for u in walk(p.ret)):
                res["undecided"].append("whether the strip is fitted before the solution is created")
            else:
                bad("fit_strip", "a strip is fitted to its items before the solution is created", "a path for strip packing creates the solution without fit_strip")
        for k in p.facts:
            for u in walk(k):
                if isinstance(u, tuple) and len(u) == 3 and u[0] == "exists" and u[1][:2] == ("call", "sorted_by_key"):
                    for fs in u[2]:
                        if p.facts.get(k) is False:
                            continue
                        res["obligations"] += 1
                        for x in (fs if isinstance(fs, frozenset) else [fs]):
                            if gave_up(x):
                                bad("remaining items", "item types are left untried only when the item limit is reached", "stops when the search finds no place for one item type")
        if not (isinstance(p.ret, tuple) and p.ret[:2] == ("call", PG + "create_solution")):
            res["undecided"].append("returned solution: " + show(p.ret)[:120])
    if not placed:
        res["undecided"].append("no call of place_item found")
    res["sites"] = placed
    res["samples"].append({"function": SOLVE, "at": at, "place_item_events": placed})
    return res


SAMPLE = "sample_layout"
SB = "LBFPlacingCost::from_shape, HPGSampler::new, HPGSampler::sample, HPGSampler::tighten, LSSampler::from_defaults, LSSampler::sample, LSSampler::shift_mean, LSSampler::decay_stddev, CDEngine::surrogate_collides, CDEngine::poly_collides, generate_irrelevant_hazards, CDEngine::all_hazards, Layout::cde, SimplePolygon::surrogate, <SimplePolygon as TransformableFrom>::transform_from, DTransformation::compose, Transformation::decompose, ProblemGeneric::get_layout".split(", ")


def samplers(P, cfg):
    """the samplers are told about exactly the samples that were accepted, and the spread follows the loop's progress"""
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    if cfg == "f64":
        return res
    fn = P.fn(SAMPLE)
    if fn is None or any(P.fn(b) is None for b in SB):
        res["undecided"].append("function not found: " + ", ".join(b for b in [SAMPLE] + SB if P.fn(b) is None))
        return res
    at = "%s:%s" % (fn.file, fn.line)
    I = Interp(P, boundary=SB)
    I.blur = {"HPGSampler::sample": {0, 1}, "LSSampler::sample": {0, 1}, "<SimplePolygon as TransformableFrom>::transform_from": {0}}
    try:
        paths = I.summarize(SAMPLE, force=True)
    except TooComplex as e:
        res["undecided"].append("summary too complex: %s" % e)
        return res
    res["visited"] = sorted(I.visited)
    seen = set()

    def bad(clause, exp, act):
        if (clause, act) not in seen:
            seen.add((clause, act))
            res["violations"].append({"fn": SAMPLE, "file": at, "clause": clause, "expected": exp, "actual": act, "construct": SAMPLE})

    def mentions(t, name):
        return any(isinstance(u, tuple) and len(u) == 3 and u[:2] == ("call", name) for u in walk(t))

    loops = {"HPGSampler::sample": 0, "LSSampler::sample": 0}
    for p in paths:
        if p.outcome != "ret":
            continue
        for e in p.events:
            if e[0] == "loop" and any(x[0] in loops for _, evs in e[1][1] for x in evs):
                coll = e[1][0]
                for fs, evs in e[1][1]:
                    draw = [x for x in evs if x[0] in loops]
                    if len(draw) != 1:
                        res["undecided"].append("%d samples are drawn in one iteration" % len(draw))
                        continue
                    kind = draw[0][0]
                    loops[kind] += 1
                    facts = list(fs)
                    acc = [v for k, v in facts if k[0] == "b" and k[1][:2] == ("call", "CDEngine::poly_collides")]
                    tested = [x for x in evs if x[0] == "CDEngine::poly_collides"]
                    if tested and not acc:
                        res["undecided"].append("the outcome of poly_collides is not a condition of the iteration")
                        continue
                    accepted = bool(acc) and not any(acc)
                    sample = ("call", kind, tuple(draw[0][1]))
                    up = [x for x in evs if x[0] == ("HPGSampler::tighten" if kind[0] == "H" else "LSSampler::shift_mean")]
                    res["obligations"] += 2
                    res["sites"] += 1
                    if kind[0] == "L" and accepted and len(up) != 1:
                        if mentions(("t",) + tuple(a for x in evs for a in x[1]), "LSSampler::shift_mean"):
                            res["undecided"].append("shift_mean of an accepted sample")
                        else:
                            bad("shift_mean", "the distribution is centred on every accepted sample", "an accepted sample is followed by %d calls of shift_mean" % len(up))
                    if up and not accepted:
                        bad(up[0][0], "called for an accepted sample only", "called although poly_collides did not clear the sample")
                    for x in up:
                        if kind[0] == "L":
                            if x[1][1] != sample:
                                (res["undecided"].append if mentions(x[1][1], kind) and x[1][1][0] not in ("f", "call") else (lambda m: bad("shift_mean", "the accepted sample", m)))(show(x[1][1])[:150])
                        elif not (x[1][1][:2] == ("call", "LBFPlacingCost::from_shape") and mentions(x[1][1], kind)):
                            res["undecided"].append("cost the uniform sampler is tightened to: " + show(x[1][1])[:150])
                    if kind[0] == "L":
                        dec = [x for x in evs if x[0] == "LSSampler::decay_stddev"]
                        res["obligations"] += 1
                        if not dec:
                            bad("decay_stddev", "the spread follows the progress of the search in every iteration", "an iteration leaves the spread as it was")
                        for x in dec:
                            q = poly(x[1][1])
                            if not any(isinstance(u, tuple) and u and u[0] == "elem" for u in walk(x[1][1])):
                                bad("decay_stddev", "the fraction of the iterations done", show(x[1][1])[:150])
                            elif coll[0] != "range" or len(q) != 1 or q[0][1] != 1 or dict(q[0][0]).get(coll[2]) != -1 or len(q[0][0]) != 2:
                                res["undecided"].append("progress: " + show(x[1][1])[:150])
            elif e[0] == "LSSampler::from_defaults":
                res["obligations"] += 1
                a = e[1]
                box = show(a[2])
                if a[0] != ("p", "2"):
                    res["undecided"].append("item of the local search: " + show(a[0])[:80])
                if "bbox" not in box or "get_layout($0, $1)" not in box:
                    res["undecided"].append("area of the local search: " + box[:120])
    for k, n in loops.items():
        if not n:
            res["undecided"].append("no loop that calls " + k)
    res["samples"].append({"function": SAMPLE, "at": at, "iteration_cases": dict(loops)})
    return res


RESIZE = {"truncate", "clear", "pop", "push", "remove", "swap_remove", "drain", "retain", "retain_mut", "dedup", "insert", "extend", "extend_from_slice", "resize", "split_off", "append"}


def shapes(P, cfg):
    """a shape the search transforms into keeps one vertex for each vertex of its reference: no vertex list is resized outside the library"""
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    if cfg == "f64":
        return res
    for f in P.fns.values():
        if f.crate != "lbf" or f.kind in ("const", "promoted"):
            continue
        res["visited"].append(f.name)
        refs = set()
        for b in f.blocks:
            for dst, rv, line in (b[0] if b else ()):
                if rv[0] == "ref" and rv[2][2] and rv[2][2][-1][:2] == ("f", "points") and rv[1] == "mut":
                    refs.add(dst[1])
        for b in f.blocks:
            if b and b[1][0] == "call":
                res["obligations"] += 1
                res["sites"] += 1
                t = b[1]
                m = re.sub(r"::<[^<>]*>$", "", t[1][1]).split("::")[-1] if t[1][0] == "fn" else "?"
                for a in t[2]:
                    if isinstance(a, tuple) and a[0] == "place" and a[1] in refs and not a[2]:
                        if m in RESIZE:
                            res["violations"].append({"fn": f.name, "file": "%s:%s" % (f.file, b[2]), "clause": "vertex list", "expected": "the vertices of a shape stay as the library built them", "actual": "call of " + m + " on the vertices of a shape", "construct": f.name})
    res["samples"].append({"rule": "shapes", "functions": len(res["visited"]), "call_sites": res["sites"]})
    return res
