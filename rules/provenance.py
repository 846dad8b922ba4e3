"""Where do the pieces of a surrogate come from?  Every value in the returned collection is traced back, through the
containers, loops and selections it went through, to the construct that made it."""
from absint import Interp, TooComplex
from terms import show, poly

SELECT = {"min_by_key", "max_by_key", "min_by", "max_by", "min", "max", "first", "last", "pop", "pop_front", "pop_back", "get", "find", "next"}
SAME = {"remove", "swap_remove", "truncate", "pop", "pop_front", "rev", "sorted", "sort", "sorted_by", "sort_by", "sort_by_key", "sorted_by_key", "iter", "take", "skip",
        "drain", "retain", "dedup", "clear", "vec", "to_vec", "filter", "unique", "reverse", "into_boxed_slice", "swap"}
MORE = {"push": 1, "push_front": 1, "insert": 2}


class Trace:
    def __init__(self, I, sources, keep):
        self.I, self.sources, self.keep = I, sources, keep
        self.seen = set()
        self.made, self.unknown, self.origins = [], [], set()

    def elems(self, t, path, env=()):
        """every element of the collection t, projected along path"""
        k = ("E", t, path, env)
        if k in self.seen:
            return
        self.seen.add(k)
        h = t[0]
        if h == "call":
            f, a = t[1], t[2]
            if f in self.sources:
                self.source(t, path)
            elif f == "emptyvec":
                pass
            elif f in MORE:
                self.elems(a[0], path, env)
                self.val(a[MORE[f]], path, env)
            elif f in SAME:
                self.elems(a[0], path, env)
            elif f in ("append", "extend"):
                self.elems(a[0], path, env)
                self.elems(a[1], path, env)
            else:
                self.unknown.append("a collection made by %s" % f)
        elif h in ("slice", "mapped_same"):
            self.elems(t[1], path, env)
        elif h == "chain":
            self.elems(t[1], path, env)
            self.elems(t[2], path, env)
        elif h == "arr":
            for x in t[1]:
                self.val(x, path, env)
        elif h == "fold":
            self.elems(t[1], path, env)
            for _, u in t[3]:
                self.elems(u, path, env + (("one", t),))
        elif h == "collect":
            self.elems(t[1], path, env)
            for _, u in t[3]:
                self.val(u, path, env)
        elif h == "jf" and t[2][0] == "jfold":
            self.elems(t[2][1][t[1]], path, env)
            for us in (u for _, u in t[2][3] if u != ("stop",)):
                self.elems(us[t[1]], path, env + (("joint", t[2]),))
        elif h == "acc":
            self.acc(t, path, env, self.elems)
        elif h == "lv":
            self.lv(t, path, env, self.elems)
        elif h == "upd":
            vs = [v for p, v in t[2]] if not isinstance(t[2], dict) else list(t[2].values())
            for v in vs:
                self.elems(v, path, env)
        elif h == "ite":
            self.elems(t[2], path, env)
            self.elems(t[3], path, env)
        else:
            self.unknown.append("a collection: " + show(t)[:120])

    def acc(self, t, path, env, go):
        if not env:
            self.unknown.append("an accumulator: " + show(t)[:120])
            return
        kind, f = env[-1]
        if kind == "one" and len(t) == 2:
            go(f[1], path, env[:-1])
        elif kind == "joint" and len(t) == 3:
            go(("jf", t[2], f), path, env[:-1])
        else:
            self.unknown.append("an accumulator: " + show(t)[:120])

    def lv(self, t, path, env, go):
        d = self.I.lvdef.get(t)
        if d is None:
            self.unknown.append("a loop variable: " + show(t)[:120])
            return
        go(d[0], path, env)
        for u in d[1]:
            go(u, path, env)

    def source(self, t, path):
        self.origins.add(t[1])

    def val(self, t, path, env=()):
        k = ("V", t, path, env)
        if k in self.seen:
            return
        self.seen.add(k)
        h = t[0]
        if t in self.keep:
            self.origins.add(show(t))
        elif h == "call" and t[1] in self.sources and not path:
            self.source(t, path)
        elif h == "call" and t[1] in SELECT and path[:2] == (("#", "Some"), "0"):
            c = t[2][0]
            keyed = t[1] in ("min_by_key", "max_by_key")          # the engine pairs every element with its key
            self.elems(c, (("1",) if keyed else ()) + path[2:], env)
        elif h == "call" and not path:
            self.made.append("the result of %s" % t[1])
        elif h == "f":
            self.val(t[1], (t[2],) + path, env)
        elif h == "as":
            self.val(t[1], (("#", t[2]),) + path, env)
        elif h in ("elem", "ix"):
            self.elems(t[1], path, env)
        elif h == "tup" and path and isinstance(path[0], str) and path[0].isdigit():
            self.val(t[1][int(path[0])], path[1:], env)
        elif h == "agg":
            fs = dict(t[3])
            if path and path[0] in fs:
                self.val(fs[path[0]], path[1:], env)
            elif not path:
                base = self.copied(t, fs)
                if base is None:
                    self.made.append("a new value: " + show(t)[:200])
                else:
                    self.val(base, (), env)
            else:
                self.unknown.append("a value: " + show(t)[:120])
        elif h == "ite":
            self.val(t[2], path, env)
            self.val(t[3], path, env)
        elif h == "acc":
            self.acc(t, path, env, self.val)
        elif h == "jf" and t[2][0] == "jfold":
            self.val(t[2][1][t[1]], path, env)
            for us in (u for _, u in t[2][3] if u != ("stop",)):
                self.val(us[t[1]], path, env + (("joint", t[2]),))
        elif h == "lv":
            self.lv(t, path, env, self.val)
        elif h in ("noelem", "bot"):
            pass
        elif h == "upd" and not path:
            self.made.append("a changed value: " + show(t)[:200])
        else:
            self.unknown.append("a value: " + show(t)[:120])

    def copied(self, t, fs):
        """the value all fields were copied from; a circle may have been shrunk"""
        bases = set()
        for n, v in fs.items():
            q = poly(v)
            if v[0] == "f" and v[2] == n:
                bases.add(v[1])
            elif n == "radius" and len(q) == 1 and len(q[0][0]) == 1 and q[0][0][0][1] == 1 and q[0][0][0][0][0] == "f" and q[0][0][0][0][2] == n and 0 < q[0][1] <= 1:
                bases.add(q[0][0][0][0][1])
            else:
                return None
        return bases.pop() if len(bases) == 1 else None


def trace(P, fn, bound, sources, keep, what):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    f = P.fn(fn)
    if f is None or any(P.fn(b) is None for b in sources):
        res["undecided"].append("function not found: " + ", ".join(b for b in [fn] + sorted(sources) if P.fn(b) is None))
        return res
    I = Interp(P, boundary=list(bound) + sorted(sources))
    try:
        paths = I.summarize(fn, force=True)
    except TooComplex as e:
        res["undecided"].append("summary too complex: %s" % e)
        return res
    res["visited"] = sorted(I.visited)
    tr = Trace(I, sources, keep)
    for p in paths:
        if p.outcome == "ret":
            res["sites"] += 1
            tr.elems(p.ret, ())
    res["obligations"] = len(tr.seen)
    at = "%s:%s" % (f.file, f.line)
    for m in sorted(set(tr.made)):
        res["violations"].append({"fn": fn, "file": at, "clause": "origin of the returned pieces", "expected": what, "actual": m, "construct": fn})
    res["undecided"] += sorted(set(tr.unknown))
    if not tr.origins and not tr.made:
        res["undecided"].append("no origin found for the pieces returned by " + fn)
    res["samples"].append({"function": fn, "at": at, "traced": len(tr.seen), "origins": sorted(tr.origins)})
    return res


POI = ("f", ("p", "0"), "poi")


def poles(P, cfg):
    return trace(P, "generate_additional_surrogate_poles", [], {"generate_next_pole"}, {POI}, "a pole found by generate_next_pole, or the shape's point of inaccessibility")


def piers(P, cfg):
    return trace(P, "jagua_rs::geometry::fail_fast::piers::generate",
                 ["generate_ray_transformations", "generate_unrepresented_point_grid", "loss_function", "min_distances_to_rays", "min_distances_to_poles",
                  "AARectangle::inflate_to_square", "Transformable::transform_clone", "<SimplePolygon as Shape>::centroid"],
                 {"clip"}, set(), "a piece of a ray that was clipped to the shape")
