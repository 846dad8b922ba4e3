"""The JSON formats: which name is read into which field, which name each field is written under, and what happens to a
field that is absent.  Read off the IR that the serialisation derives expand to, so the attribute that produces a name
(rename, rename_all, a hand-written impl of the same shape) does not matter."""
import json, os, re

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "formats.json")


def callee(t):
    c = t[1]
    return c[1] if c[0] == "fn" else ""


def consts(t):
    return [o[1] for o in t[2] if o[0] == "const" and isinstance(o[1], str)]


def blocks(f):
    for i, b in enumerate(f.blocks):
        if b:
            yield i, b


def variant_from(f, start):
    """the __Field / enum variant a chain of gotos starting at the block builds first"""
    i, seen = start, set()
    while i not in seen:
        seen.add(i)
        b = f.blocks[i]
        for dst, rv, _ in b[0]:
            if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("k") == "adt" and "__Field" in str(rv[1].get("p")):
                return rv[1].get("v")
        if b[1][0] == "goto":
            i = b[1][1]
        else:
            return None
    return None


def read_names(f):
    """name -> variant, from the comparisons of visit_str"""
    out = {}
    for i, b in blocks(f):
        t = b[1]
        if t[0] == "call" and callee(t).endswith("PartialEq::eq") and consts(t) and t[4] is not None:
            dst, nxt = t[3], t[4]
            s = f.blocks[nxt][1]
            if s[0] == "switch" and s[1][0] == "place" and s[1][1] == dst[1] and s[2] and s[2][0][0] == 0:
                out[consts(t)[0]] = variant_from(f, s[3])
    return out


def origin(f, op):
    """the field of *self that an operand refers to: ('x',) path of names, or None"""
    for _ in range(6):
        if op[0] != "place":
            return None
        path = [p[1] for p in op[2] if p[0] == "f"]
        if path:
            return path[-1] if op[1] == 1 or True else None
        src = None
        for _, b in blocks(f):
            for dst, rv, _l in b[0]:
                if dst[1] == op[1] and not dst[2]:
                    src = rv
        if src is None:
            return None
        if src[0] == "ref":
            op = src[2]
        elif src[0] in ("use", "cast"):
            op = src[1] if src[0] == "use" else src[2]
        else:
            return None
        if op[0] == "place" and op[1] == 1 and not [p for p in op[2] if p[0] == "f"]:
            return "*self"
    return None


def observe(P):
    out = {}
    for n in sorted(P.fns):
        m = re.match(r"^<(\w+) as (Serialize|Deserialize)>::(serialize|deserialize)$", n)
        if m and m.group(1) not in out and m.group(1) in P.adts:
            out[m.group(1)] = None
    for ty in list(out):
        adt = P.adts[ty]
        names = [[x[0] for x in v[2]] for v in adt["variants"]]
        d = {"read": {}, "write": {}, "absent": {}}
        vs = P.fns.get("<<impl Deserialize for %s>::__FieldVisitor as Visitor>::visit_str" % ty)
        if vs is not None:
            for k, v in read_names(vs).items():
                mm = re.match(r"__field(\d+)$", str(v))
                if adt["kind"] == "struct" and mm and int(mm.group(1)) < len(names[0]):
                    d["read"][k] = names[0][int(mm.group(1))]
                elif adt["kind"] == "enum" and mm and int(mm.group(1)) < len(adt["variants"]):
                    d["read"][k] = adt["variants"][int(mm.group(1))][0]
                else:
                    d["read"][k] = str(v)
        inner = P.fns.get("<<<impl Deserialize for %s>::__Seed as DeserializeSeed>::__FieldVisitor as Visitor>::visit_str" % ty)
        if inner is not None and adt["kind"] == "enum":
            st = [v for v in adt["variants"] if v[2] and v[2][0][0] != "0"]
            for k, v in read_names(inner).items():
                mm = re.match(r"__field(\d+)$", str(v))
                if len(st) == 1 and mm and int(mm.group(1)) < len(st[0][2]):
                    d["read"][st[0][0] + "." + k] = st[0][2][int(mm.group(1))][0]
        vm = P.fns.get("<<impl Deserialize for %s>::__Visitor as Visitor>::visit_map" % ty)
        if vm is not None and adt["kind"] == "struct":
            missing = set()
            for _, b in blocks(vm):
                if b[1][0] == "call" and callee(b[1]).endswith("missing_field"):
                    missing.update(consts(b[1]))
            for k, fld in d["read"].items():
                d["absent"][k] = "refused unless optional" if k in missing else "default"
        se = P.fns.get("<%s as Serialize>::serialize" % ty)
        if se is not None:
            for _, b in blocks(se):
                if b[1][0] != "call":
                    continue
                cn = callee(b[1])
                cs = consts(b[1])
                if cn.endswith(("SerializeStruct::serialize_field", "SerializeMap::serialize_entry")) and cs:
                    d["write"][cs[0]] = (origin(se, b[1][2][2]) if adt["kind"] == "struct" else None) or "?"
                elif re.search(r"Serializer::serialize_(unit|newtype|tuple|struct)_variant$", cn) and cs:
                    d["write"][cs[-1]] = "variant"
        out[ty] = d
    return {k: v for k, v in out.items() if v and (v["read"] or v["write"])}


def check(P, cfg, wanted):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}
    exp = json.load(open(SPEC))
    try:
        got = observe(P)
    except (KeyError, IndexError, TypeError) as e:
        res["undecided"].append("the derived code has an unexpected shape: %r" % (e,))
        return res

    def bad(ty, what, e, a):
        adt = P.adts.get(ty) or {}
        res["violations"].append({"fn": ty, "file": ":".join(map(str, adt.get("span") or [])), "clause": what, "expected": e, "actual": a, "construct": "%s: %s" % (ty, what)})

    for ty in sorted(exp):
        if ty not in wanted:
            continue
        if ty not in got:
            if ty in P.adts or cfg != "f64":
                res["undecided"].append("%s has no derived format" % ty)
            continue
        e, g = exp[ty], got[ty]
        res["sites"] += 1
        for k, v in e["read"].items():
            res["obligations"] += 1
            a = g["read"].get(k)
            if a is None:
                if not g["read"]:
                    res["undecided"].append("%s is read by hand-written code" % ty)
                    break
                bad(ty, "the name %r is read" % k, "into " + v, "the name is not recognised (recognised: %s)" % ", ".join(sorted(g["read"])))
            elif a != v:
                bad(ty, "the name %r is read" % k, "into " + v, "into " + a)
        for k, v in e["absent"].items():
            if k in g["absent"]:
                res["obligations"] += 1
                a = g["absent"][k]
                if a != v:
                    bad(ty, "%r is absent" % k, v, a)
        for k, v in e["write"].items():
            res["obligations"] += 1
            a = g["write"].get(k)
            if a is None:
                if not g["write"]:
                    res["undecided"].append("%s is written by hand-written code" % ty)
                    break
                bad(ty, "the name %r is written" % k, "from " + v, "the name is not written (written: %s)" % ", ".join(sorted(g["write"])))
            elif a != v:
                if v == "?":
                    continue
                if a == "?":
                    res["undecided"].append("%s: origin of %r not traced" % (ty, k))
                else:
                    bad(ty, "the name %r is written" % k, "from " + v, "from " + a)
        for k, a in g["write"].items():     # what is written under a name must be readable under that name
            if g["read"] and k not in g["read"] and k not in e["write"] and a != "variant":
                res["undecided"].append("%s: new name %r is written and not read" % (ty, k))
        if len(res["samples"]) < 3:
            res["samples"].append({"type": ty, "read": g["read"], "absent": g["absent"]})
    return res


INSTANCE = {"JsonInstance", "JsonItem", "JsonBin", "JsonStrip", "JsonShape", "JsonPoly", "JsonSimplePoly", "JsonQualityZone"}
SOLUTION = {"JsonSolution", "JsonLayout", "JsonContainer", "JsonPlacedItem", "JsonTransformation", "JsonLayoutStats", "JsonOutput"}
CONFIG = {"LBFConfig", "CDEConfig", "SPSurrogateConfig", "PolySimplConfig", "PolySimplMode"}


def instance(P, cfg):
    return check(P, cfg, INSTANCE)


def solution(P, cfg):
    return check(P, cfg, SOLUTION)


def config(P, cfg):
    return check(P, cfg, CONFIG)


if __name__ == "__main__":
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(V, "engine"))
    import prog
    o = observe(prog.load(os.path.join(V, "build", "out")))
    json.dump({k: v for k, v in o.items() if k in INSTANCE | SOLUTION | CONFIG}, open(SPEC, "w"), indent=1, sort_keys=True)
