"""Restoring a snapshot: for every key (hazard entity, layout id) the state afterwards is the one in the snapshot."""
from absint import Interp, TooComplex
from keyed import Keyed, Undecided, coll, elem, K, O
from terms import show
import itertools


def result():
    return {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}


def field(upd, name, base):
    if upd is not None and upd[0] == "upd" and upd[1] == base:
        for path, v in upd[2]:
            if path == (("f", name),):
                return v
            if path and path[0] == ("f", name):
                return None
    if upd is not None and upd[0] == "agg":
        return dict(upd[3]).get(name)
    return ("f", base, name)


def start(P, res, fn, bound, **kw):
    f = P.fn(fn)
    miss = [b for b in [fn] + bound if P.fn(b) is None]
    if miss:
        res["undecided"].append("function not found: " + ", ".join(miss))
        return None, None
    I = Interp(P, boundary=bound)
    try:
        ps = I.summarize(fn, force=True, **kw)
    except TooComplex as e:
        res["undecided"].append("summary too complex: %s" % e)
        return None, None
    res["visited"] = sorted(I.visited)
    return f, ps


QN = "QTNode::"


def cde_restore(P, cfg):
    res = result()
    fn = "CDEngine::restore"
    bound = [QN + x for x in ("register_hazard", "deregister_hazard", "activate_hazard", "deactivate_hazard")] + ["HazardProximityGrid::restore"]
    f, ps = start(P, res, fn, bound)
    if f is None:
        return res
    me, snap = ("p", "0"), ("p", "1")

    def on(op):
        def g(q, e):
            if q[0] != "Q" or e[0] != "E":
                raise Undecided(op)
            if e[1] == O:
                return q
            s = q[1]
            return ("Q", {"register": "active" if s == "absent" else "registered twice", "deregister": "absent",
                          "activate": "active" if s == "inactive" else s, "deactivate": "inactive" if s == "active" else s}[op])
        return g
    muts = {(QN + o + "_hazard", 0): on(o) for o in ("register", "deregister", "activate", "deactivate")}
    cases = [(d, u, s) for d, u, s in itertools.product((0, 1), repeat=3) if not (d and u)]
    for p in ps:
        if p.outcome != "ret":
            continue
        res["sites"] += 1
        st = p.store.get("0")
        for d, u, s in cases:
            name = "a hazard that is %s and %s the snapshot" % ("registered" if d else "pending removal" if u else "not registered", "in" if s else "not in")
            base = {("f", me, "dynamic_hazards"): coll(*["h"] * d), ("f", me, "uncommitted_deregisters"): coll(*["h"] * u), ("f", snap, "dynamic_hazards"): coll(*["h"] * s),
                    ("f", me, "static_hazards"): coll(), ("f", me, "quadtree"): ("Q", "active" if d else "inactive" if u else "absent")}
            kd = Keyed({"entity"}, base, muts)
            for fld, want in (("dynamic_hazards", s), ("uncommitted_deregisters", 0), ("quadtree", "active" if s else "absent")):
                res["obligations"] += 1
                t = field(st, fld, me)
                try:
                    if t is None:
                        raise Undecided("partial update of " + fld)
                    v = kd.ev(t)
                except Undecided as e:
                    res["undecided"].append("%s, %s: %s" % (fld, name, e))
                    continue
                got = len(v[1]) if v[0] == "C" else v[1]
                if got != want:
                    say = (lambda x: x) if fld == "quadtree" else lambda x: "contains it %d times" % x
                    res["violations"].append({"fn": fn, "file": "%s:%s" % (f.file, f.line), "clause": "self.%s after restore, for %s" % (fld, name),
                                              "expected": str(say(want)), "actual": str(say(got)), "construct": fn, "path": [show(t)[:600]]})
    res["samples"].append({"function": fn, "at": "%s:%s" % (f.file, f.line), "cases": len(cases)})
    return res


def bp_restore(P, cfg):
    res = result()
    fn = "<BPProblem as ProblemGeneric>::restore_to_solution"
    bound = ["Layout::restore", "Layout::from_snapshot"]
    f, ps = start(P, res, fn, bound)
    if f is None:
        return res
    me, sol = ("p", "0"), ("p", "1")

    def restore(l, s):
        if l[0] != "E" or s[0] != "E":
            raise Undecided("restore")
        if l[1] != s[1]:
            raise Undecided("restored from the snapshot of another layout")
        return elem(l[1], "as in the solution")
    muts = {("Layout::restore", 0): restore}
    calls = {"Layout::from_snapshot": lambda s: elem(s[1], "as in the solution")}
    # D: in the problem, U: removed but kept, S: in the solution, M: recorded as unmodified since the solution
    cases = [(d, u, s, m) for d, u, s, m in itertools.product((0, 1), repeat=4) if not (d and u) and not (m and not (s and d))]
    for p in ps:
        if p.outcome != "ret":
            continue
        res["sites"] += 1
        st = p.store.get("0")
        for d, u, s, m in cases:
            name = "a layout that is %s, %s the solution and %s" % ("in the problem" if d else "removed from the problem" if u else "not in the problem", "in" if s else "not in",
                                                                    "unmodified" if m else "modified")
            cur = "as in the solution" if m else "modified"
            base = {("f", me, "layouts"): coll(*[cur] * d), ("f", me, "uncommitted_removed_layouts"): coll(*["modified"] * u),
                    ("f", sol, "layout_snapshots"): coll(*["snapshot"] * s), ("f", me, "unmodified_layout_ids"): coll(*["id"] * m)}
            kd = Keyed({"id"}, base, muts, calls)
            for fld, want in (("layouts", ("as in the solution",) * s), ("unmodified_layout_ids", s), ("uncommitted_removed_layouts", 0)):
                res["obligations"] += 1
                t = field(st, fld, me)
                try:
                    if t is None:
                        raise Undecided("partial update of " + fld)
                    v = kd.ev(t)
                    got = v[1] if fld == "layouts" else len(v[1])
                except Undecided as e:
                    res["undecided"].append("%s, %s: %s" % (fld, name, e))
                    continue
                if kd.unsorted is not None:
                    res["violations"].append({"fn": fn, "file": "%s:%s" % (f.file, f.line), "clause": "binary search among the layouts that are kept", "expected": "a sorted vector",
                                              "actual": "the order of the problem's layouts: " + show(kd.unsorted)[:300], "construct": fn})
                    kd.unsorted = None
                    continue
                if got != want:
                    res["violations"].append({"fn": fn, "file": "%s:%s" % (f.file, f.line), "clause": "self.%s after restore_to_solution, for %s" % (fld, name),
                                              "expected": str(want), "actual": str(got), "construct": fn, "path": [show(t)[:600]]})
    res["samples"].append({"function": fn, "at": "%s:%s" % (f.file, f.line), "cases": len(cases)})
    return res
