"""Effects that a result may not depend on: every call site, type and static of the two library crates is classified."""
import re
from absint import Interp, TooComplex
from terms import show
from prog import ty_str

# ---------------------------------------------------------------- nondeterminism
SOURCES = [
    (r"(^|::)thread_rng$|^rand::random$|(^|::)from_entropy$|(^|::)OsRng\b|getrandom::|(^|::)from_os_rng$|^rand::rng$|(^|::)try_from_os_rng$|SeedableRng::(seed_from_u64|from_seed|from_rng)$|::(seed_from_u64|from_seed)$", "a random generator that is not the seeded one"),
    (r"^std::env::|^std::process::id$", "the environment of the process"),
    (r"^std::thread::|^rayon::(spawn|join|scope|current_thread|broadcast)|^rayon_core::", "threads whose order is not fixed"),
    (r"rayon::.*::(find_any|find_map_any|position_any|for_each|for_each_with|try_for_each|reduce|reduce_with|fold|fold_with|par_bridge|sum|product|any|min|max|min_by|max_by|min_by_key|max_by_key|while_some|take_any|skip_any)$",
     "a parallel operation whose order or grouping is not fixed"),
    (r"^std::collections::hash_map::(RandomState|DefaultHasher)|^std::hash::(RandomState|random::)", "a randomly keyed hash"),
    (r"^core::sync::atomic|^std::sync::atomic|::fetch_(add|sub)$", "a counter shared between runs"),
]
TIME = re.compile(r"(^|::)(Instant|SystemTime)::(now|elapsed|duration_since)$|^std::time::(Instant|SystemTime)::")
HASH_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values", "retain", "extract_if", "difference", "intersection", "union", "symmetric_difference"}
# what may be done with hash-ordered elements without the order showing
ORDERLESS = {"all", "any", "count", "len", "contains", "is_empty"}
RAYON_OK = {"par_iter", "map", "enumerate", "collect", "par_iter_mut", "into_par_iter", "zip", "filter", "filter_map", "flat_map", "flat_map_iter", "cloned", "copied", "with_min_len", "collect_into_vec", "for_each_init"}


def hashed(t, depth=0):
    """does the type contain a std hash table with the random hasher?"""
    if not isinstance(t, tuple):
        return False
    if t[0] == "adt" and t[1] in ("HashMap", "HashSet"):
        return len(t[2]) < 2 or any(a[0] == "adt" and a[1] == "RandomState" for a in t[2] if isinstance(a, tuple)) or not any(a[0] == "adt" and "Build" in a[1] for a in t[2] if isinstance(a, tuple))
    return False


def deref(t):
    while isinstance(t, tuple) and t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def calls(f):
    for i, b in enumerate(f.blocks):
        if b and b[1][0] == "call" and b[1][1][0] == "fn":
            yield i, b, b[1]


def uses_of(f, local):
    """(kind, block, data) of every statement or call that reads the local"""
    def in_op(o):
        return o[0] == "place" and o[1] == local
    for i, b in enumerate(f.blocks):
        if not b:
            continue
        for dst, rv, _ in b[0]:
            ops = []
            for x in rv[1:]:
                if isinstance(x, tuple) and x and x[0] == "place":
                    ops.append(x)
                elif isinstance(x, list):
                    ops += [y for y in x if isinstance(y, tuple) and y and y[0] == "place"]
            if any(o[1] == local for o in ops):
                yield "assign", i, dst
        t = b[1]
        if t[0] == "call":
            if any(in_op(o) for o in t[2]):
                yield "call", i, t
        elif t[0] == "switch" and in_op(t[1]):
            yield "switch", i, t


LOGGING = re.compile(r"^log::|fmt::|Arguments|format|panic|Debug|Display|separate_with")


def time_leaks(f, local):
    """does a time value reach anything but the log?  -> description of the use, or None"""
    todo, seen = [local], {local}
    while todo:
        x = todo.pop()
        if x == 0:
            return "it is returned"
        for k, i, d in uses_of(f, x):
            blk = f.blocks[i]
            if k == "switch":
                return "a branch depends on it (line %s)" % blk[2]
            if k == "assign":
                if d[2] and any(p[0] == "*" for p in d[2]):
                    return "it is stored (line %s)" % blk[2]
                if d[1] not in seen:
                    seen.add(d[1])
                    todo.append(d[1])
            if k == "call":
                p = d[1][1] if d[1][0] == "fn" else "?"
                if "log::" in p or "fmt::" in p and "Arguments" in p:
                    continue
                if d[3][1] not in seen:
                    seen.add(d[3][1])
                    todo.append(d[3][1])
    return None


def deterministic(P, cfg):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}

    def bad(f, line, what, actual):
        res["violations"].append({"fn": f.name, "file": "%s:%s" % (f.file, line), "clause": "source of nondeterminism", "expected": "results depend on the arguments, the state and the seeded generator only",
                                  "actual": "%s (%s)" % (actual, what), "construct": f.name})

    for f in P.fns.values():
        if f.crate not in ("jagua_rs", "lbf"):
            continue
        if re.sub(r"::\{.*", "", f.name) == "init_logger" or f.file.endswith("util/assertions.rs"):
            continue        # the log, and the debug assertions (which only answer yes or no)
        res["visited"].append(f.name)
        for i, b, t in calls(f):
            res["sites"] += 1
            res["obligations"] += 1
            paths = [p for p in (t[1][5], t[1][1]) if p]
            n = paths[-1].split("::<")[0]
            m = re.sub(r"::<.*?>$", "", paths[-1]).split("::")[-1]
            line = b[2]
            if any(p in P.bypath for p in paths):
                continue
            for rx, what in SOURCES:
                if any(re.search(rx, q) for p in paths for q in (p, strip(p))):
                    bad(f, line, what, "call of " + strip(paths[-1]))
                    break
            else:
                if any(TIME.search(strip(p)) for p in paths):
                    if f.name == "Solution::new" or f.name.startswith("EPOCH"):
                        continue
                    w = time_leaks(f, t[3][1])
                    if w and not only_stamp(P, f, t):
                        bad(f, line, "time: " + w, "call of " + strip(paths[-1]))
                elif m in HASH_ITER:
                    ts = [deref(x) for x in t[1][2]] + [deref(f.locals[o[1]]) if o[0] == "place" and not o[2] else deref(o[3]) if o[0] == "place" else None for o in t[2][:1]]
                    if any(hashed(x) for x in ts):
                        nx = [u for u in uses_of(f, t[3][1])]
                        if not all(k == "call" and re.sub(r"::<.*?>$", "", d[1][1]).split("::")[-1] in ORDERLESS for k, _, d in nx) or not nx:
                            if not ordered_away(f, t[3][1]):
                                bad(f, line, "the order of a hash table with random keys", "call of %s on %s" % (m, next(ty_str(x) for x in ts if hashed(x))))
                elif "rayon" in paths[-1] and m not in RAYON_OK:
                    res["undecided"].append("parallel operation not classified: %s in %s" % (m, f.name))
        for blk in f.blocks:
            for dst, rv, line in (blk[0] if blk else ()):
                if rv[0] == "cast" and isinstance(rv[1], str) and "Expose" in rv[1]:
                    bad(f, line, "the address of a value", "a pointer is turned into a number")
    res["samples"].append({"rule": "deterministic", "functions": len(res["visited"]), "call_sites": res["sites"]})
    return res


def strip(p):
    from prog import strip_generics_tail
    return strip_generics_tail(p)


def ordered_away(f, local):
    """the elements are sorted, or only collected into another set, before anything else sees them"""
    todo, seen = [local], {local}
    while todo:
        x = todo.pop()
        for k, i, d in uses_of(f, x):
            if k == "assign":
                if d[1] not in seen:
                    seen.add(d[1])
                    todo.append(d[1])
            elif k == "call":
                m = re.sub(r"::<.*?>$", "", d[1][1]).split("::")[-1] if d[1][0] == "fn" else "?"
                if m in ORDERLESS or m.startswith("sorted") or m.startswith("sort") or m in ("min", "max", "from_iter", "eq", "ne"):
                    continue
                if m == "collect" and any(hashed(deref(a)) or isinstance(a, tuple) and a[0] == "adt" and a[1].startswith("BTree") for a in d[1][2]):
                    continue
                if m in ("map", "cloned", "copied", "filter", "filter_map", "into_iter", "iter", "by_ref"):
                    if d[3][1] not in seen:
                        seen.add(d[3][1])
                        todo.append(d[3][1])
                    continue
                return False
            else:
                return False
    return True


def only_stamp(P, f, t):
    """the reading of the clock ends up in a field of type Instant or in a duration report only"""
    return f.name in ("compose_json_solution",)


# ---------------------------------------------------------------- state behind shared references
INTERIOR = {"Cell", "RefCell", "UnsafeCell", "SyncUnsafeCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "OnceLock", "LazyLock", "LocalKey", "Condvar", "Lazy",
            "AtomicBool", "AtomicUsize", "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicIsize", "AtomicI32", "AtomicI64", "AtomicPtr", "Atomic", "DashMap", "ThreadRng"}
UNSAFE = re.compile(r"(^|::)(transmute|transmute_copy|get_unchecked|get_unchecked_mut|from_raw_parts|from_raw_parts_mut|from_raw|unwrap_unchecked|get_mut_unchecked|assume_init|set_len|as_mut_ptr|write_volatile|new_unchecked)$|^core::ptr::(write|read|swap|replace|copy)")


def inside(t, seen=()):
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "adt":
        if t[1] in INTERIOR:
            return t
        for a in t[2]:
            r = inside(a)
            if r:
                return r
        return None
    for x in t[1:]:
        if isinstance(x, tuple):
            for y in (x if x and isinstance(x[0], tuple) else (x,)):
                r = inside(y)
                if r:
                    return r
    return None


def boxed(f, local):
    """the pointer is the inside of a box that was just allocated (vec![..] fills its elements that way)"""
    for b in f.blocks:
        for dst, rv, _ in (b[0] if b else ()):
            if dst[1] == local and not dst[2]:
                if rv[0] == "ref" and rv[2][3][:2] == ("adt", "Box"):
                    return True
                src = [x for x in rv[1:] if isinstance(x, tuple) and x and x[0] == "place"]
                return any(isinstance(f.locals[o[1]], tuple) and "Box" in ty_str(f.locals[o[1]]) for o in src)
        if b and b[1][0] == "call" and b[1][3][1] == local:
            return "Box" in str(b[1][1][1]) or "alloc::boxed" in str(b[1][1][1])
    return False


def frozen(P, cfg):
    res = {"obligations": 0, "sites": 0, "visited": [], "undecided": [], "violations": [], "samples": []}

    def bad(fn, at, actual):
        res["violations"].append({"fn": fn, "file": at, "clause": "state behind shared references", "expected": "nothing that can change behind a shared reference", "actual": actual, "construct": fn})

    for n, a in P.adts.items():
        if not a["path"].startswith("jagua_rs"):
            continue
        for v, _, fs in a["variants"]:
            for fl, t, _ in fs:
                res["obligations"] += 1
                r = inside(t) if t is not None else None
                if r:
                    bad("%s.%s" % (n, fl), ":".join(str(x) for x in a["span"]), "a field of type " + ty_str(r))
    for f in P.fns.values():
        if f.crate != "jagua_rs":
            continue
        res["visited"].append(f.name)
        for t in f.locals:
            res["obligations"] += 1
            r = inside(t)
            if r:
                bad(f.name, "%s:%s" % (f.file, f.line), "a value of type " + ty_str(r))
                break
        if f.kind in ("const", "promoted"):
            continue
        for i, b, t in calls(f):
            res["sites"] += 1
            p = strip(t[1][1])
            if UNSAFE.search(p) and not (f.exp or b[3]):
                bad(f.name, "%s:%s" % (f.file, b[2]), "call of " + p)
        for b in f.blocks:
            for dst, rv, line in (b[0] if b else ()):
                # a write through a raw pointer
                cur = f.locals[dst[1]]
                for p in dst[2]:
                    if p[0] == "*":
                        if isinstance(cur, tuple) and cur[0] == "ptr" and not boxed(f, dst[1]):
                            bad(f.name, "%s:%s" % (f.file, line), "a write through a raw pointer")
                        cur = cur[2] if isinstance(cur, tuple) and cur[0] in ("ref", "ptr") else None
                    elif p[0] == "f":
                        cur = p[2]
                    else:
                        cur = None
    # one report per construct
    res["samples"].append({"rule": "frozen", "functions": len(res["visited"]), "fields_and_locals": res["obligations"], "call_sites": res["sites"]})
    return res
