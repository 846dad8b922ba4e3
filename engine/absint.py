"""Path-sensitive abstract interpretation of MIR over the term domain (terms.py).

 - shared references are erased (Rust guarantees the referent cannot change while borrowed),
   &mut references are places; Box/Arc/Clone are value-transparent;
 - local helpers and closures are analysed in context (inlined) unless named in `boundary`;
 - branch facts are kept as a conjunction keyed by canonical atoms;
 - loops are analysed once: modified places are havocked to ('lv',..) and summarised as fold/collect/exists/mapped.
Nothing is executed and no solver is used.
"""
import sys
from terms import *
from prog import short, ty_subst, ty_str

sys.setrecursionlimit(20000)


class TooComplex(Exception):
    pass


class St:
    __slots__ = ("store", "facts", "events", "ldepth", "lines", "trace", "asserted")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.events = []
        self.ldepth = 0
        self.lines = []
        self.trace = ()
        self.asserted = frozenset()      # conditions whose other outcome panics

    def fork(self):
        s = St()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.ldepth = self.ldepth
        s.lines = list(self.lines)
        s.trace = self.trace
        s.asserted = self.asserted
        return s


class Frame:
    __slots__ = ("fn", "tenv", "id", "depth", "stack")


class Path:
    """one abstract path of a root function"""

    def __init__(self, outcome, st, ret, roots):
        self.outcome = outcome
        self.facts = st.facts
        self.ret = ret
        self.events = st.events
        self.lines = st.lines
        self.store = {r[1]: st.store[r] for r in roots if r in st.store}
        for k, v in self.facts.items():
            if k[0] == "b" and k[1][0] in ("p", "f", "ix"):
                c = tobool(v)
                if self.ret is not None:
                    self.ret = subst(self.ret, k[1], c)
                self.store = {a: subst(b, k[1], c) for a, b in self.store.items()}

    def __repr__(self):
        return "<%s ret=%s facts={%s} store=%s ev=%s>" % (
            self.outcome, show(self.ret) if self.ret else None,
            "; ".join(showfact(k, v) for k, v in self.facts.items()),
            {k: show(v) for k, v in self.store.items()}, [e[0] for e in self.events])


def showfact(k, v):
    if k[0] == "cmp":
        return "%s %s 0" % (show(k[1]), v)
    if k[0] == "is":
        return "%s is %s" % (show(k[1]), "|".join(sorted(v)))
    return ("" if v else "!") + show(k[1])


# ------------------------------------------------------------- projections
SCALARS = {"f32", "f64", "usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}


def term_type(P, ptypes, t):
    """declared type of a place term, where it can be read off"""
    if t[0] == "p":
        r = ptypes.get(t[1])
    elif t[0] == "agg":
        r = ("adt", t[1], ()) if t[1] in P.adts else None
    elif t[0] == "upd":
        r = term_type(P, ptypes, t[1])
    elif t[0] == "f":
        b = term_type(P, ptypes, t[1])
        r = None
        if t[1][0] == "as" and b and b[1] == "Option":
            r = b[2][0] if b[2] else None
        elif b and b[0] == "tup" and str(t[2]).isdigit() and int(t[2]) < len(b[1]):
            r = b[1][int(t[2])]
        elif b and b[0] == "adt" and b[1] in P.adts:
            for v in P.adts[b[1]]["variants"]:
                for f in v[2]:
                    if f[0] == t[2] and (t[1][0] != "as" or t[1][2] == v[0]):
                        r = f[1]
    elif t[0] == "as":
        r = term_type(P, ptypes, t[1])
    elif t[0] == "elem" and t[1] == ("self",):
        r = ptypes.get(t[2])
    elif t[0] == "mapped":
        r = term_type(P, ptypes, t[1])
    elif t[0] in ("ix", "elem"):
        b = term_type(P, ptypes, t[1])
        r = b[1] if b and b[0] in ("array", "slice") else b[2][0] if b and b[0] == "adt" and b[1] in ("Vec", "VecDeque") and b[2] else None
    else:
        r = None
    while r and (r[0] == "ref" or r[0] == "adt" and r[1] in ("Box", "Arc", "Rc")):
        r = r[2] if r[0] == "ref" else r[2][0]
    return r


PRESERVES = {}      # (function, argument) -> fields its contract's frame clause keeps unchanged


def project(v, e):
    k = v[0]
    if e[0] == "f":
        name = e[1]
        if k == "agg":
            for f, x in v[3]:
                if f == name:
                    return x
            return ("f", v, name)
        if k == "mut" and len(v) == 4:
            pres = PRESERVES.get((v[1], v[2]))
            if pres is not None and name in pres:
                return project(v[3][v[2]], e)
        if k == "tup":
            try:
                return v[1][int(name)]
            except Exception:
                return ("f", v, name)
        if k == "clo":
            try:
                return v[2][int(name)]
            except Exception:
                return ("f", v, name)
        if k == "as" and name == "0" and v[2] == "Some" and v[1][0] == "call" and v[1][1] == "first":
            return ("ix", v[1][2][0], ("c", 0))
    elif e[0] == "as":
        if k == "agg":
            return v
        if k == "as" and v[2] == e[1]:
            return v
    elif e[0] == "ix":
        i = e[1]
        if k == "arr" and i[0] == "c" and isinstance(i[1], int) and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        if k == "rep":
            return v[1]
        if k == "arr" and len(v[1]) == 1:     # in bounds (checked where indexing panics): the only element
            return v[1][0]
        if k == "call" and v[1] == "push" and len(v[2]) == 2 and i == mklen(v[2][0]):
            return v[2][1]
    if e[0] == "slice1":
        return ("arr", (v,))
    if k == "upd":
        return proj_upd(v, e)
    if e[0] == "f":
        return ("f", v, e[1])
    if e[0] == "as":
        return ("as", v, e[1])
    return index(v, e[1])


def strip_rev(s):
    while s[0] == "rev":
        s = s[1]
    return s


def index(v, i):
    if i[0] == "ei" and (i[1] == v or strip_rev(i[1]) == v):
        return ("elem", i[1], i[2])
    if i[0] == "elem" and strip_rev(i[1])[0] == "range":
        r = strip_rev(i[1])
        if r[1] == ("c", 0) and r[2] == ("call", "len", (v,)):
            return ("elem", v if i[1][0] != "rev" else ("rev", v), i[2])
    if i[0] == "idx" and i[1][0] == "elem" and strip_rev(i[1][1]) == v:
        return i[1]
    if i[:2] == ("call", "sm_key") and v == ("call", "sm_insert", i[2]):
        return i[2][1]
    if i[0] == "findidx" and i[1] == v:
        return ("find", v, i[2])
    return ("ix", v, i)


def same_elem(a, b):
    """True/False/None(unknown alias) for path elements"""
    if a == b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == "f":
        return False
    if a[0] == "as":
        return False
    if a[1][0] == "c" and b[1][0] == "c":
        return False
    return None


def proj_upd(v, e):
    base, ents = v[1], v[2]
    rest = []
    for p, x in reversed(ents):
        s = same_elem(p[0], e)
        if s is True:
            if len(p) == 1:
                # later (already collected) deeper updates are applied on top
                r = x
                for q, y in reversed(rest):
                    r = setpath(r, q, y)
                return r
            rest.append((p[1:], x))
        elif s is None:
            return ("sel", v, e[1])
    r = project(base, e)
    for q, y in reversed(rest):
        r = setpath(r, q, y)
    return r


def setpath(v, path, val):
    if not path:
        return val
    e = path[0]
    k = v[0]
    if e[0] == "slice1":
        if len(path) > 1:
            return setpath(v, path[2:], val)
        if val[0] == "arr" and len(val[1]) == 1:
            return val[1][0]
        if val[0] == "mapped" and val[1][0] == "arr" and len(val[1][1]) == 1 and len(val[2]) == 1 and not list(val[2])[0][0]:
            x = list(val[2])[0][1]
            for u in list(walk(x)):
                if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] == val[1]:
                    x = subst(x, u, val[1][1][0] if u[0] == "elem" else ("c", 0))
            return x
        return ("unk", "slice1")
    if k == "agg" and e[0] == "f":
        fs = [(f, setpath(x, path[1:], val)) if f == e[1] else (f, x) for f, x in v[3]]
        return ("agg", v[1], v[2], tuple(fs))
    if k == "agg" and e[0] == "as":
        return setpath(v, path[1:], val)
    if k == "call" and v[1] == "push" and len(v[2]) == 2 and e[0] == "ix" and e[1] == mklen(v[2][0]):
        return ("call", "push", (v[2][0], setpath(v[2][1], path[1:], val)))
    if k == "tup" and e[0] == "f":
        i = int(e[1])
        return ("tup", tuple(setpath(x, path[1:], val) if j == i else x for j, x in enumerate(v[1])))
    if k == "arr" and e[0] == "ix" and e[1][0] == "c":
        i = e[1][1]
        return ("arr", tuple(setpath(x, path[1:], val) if j == i else x for j, x in enumerate(v[1])))
    if k == "upd":
        base, ents = v[1], list(v[2])
    else:
        base, ents = v, []
    # update inside an existing shorter entry?
    new = []
    done = False
    for p, x in ents:
        if len(p) <= len(path) and p == path[: len(p)] and not any(
                same_elem(a[0], b[0]) is None for a, b in [((q,), (w,)) for q, w in zip(p, path)] if a and b):
            new.append((p, setpath(x, path[len(p):], val)))
            done = True
        elif len(p) > len(path) and p[: len(path)] == path:
            continue
        else:
            new.append((p, x))
    if not done:
        new.append((path, val))
    # canonical order when all entries are plain fields
    if all(q[0] != "ix" for p, _ in new for q in p):
        new.sort(key=lambda z: key(z[0]))
    # drop no-op entries
    out = []
    for p, x in new:
        b = base
        for q in p:
            b = project(b, q)
        if b == x and all(q[0] != "ix" for q in p):
            continue
        out.append((p, x))
    if not out:
        return base
    return ("upd", base, tuple(out))


def readpath(v, path):
    for e in path:
        v = project(v, e)
    return v


SKIP = ("skip",)
NOELEM = ("noelem",)    # leaf of a collect row that adds nothing


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "f32": 32, "f64": 64}


class Interp:
    def __init__(self, prog, boundary=(), models=None, max_paths=3000, max_depth=14, opaque=None, max_steps=150000):
        self.P = prog
        self.boundary = set(boundary)
        self.blur = {}
        self.fid = 0
        self.ptypes = {}
        self.lid = 0
        self.lvdef = {}    # loop variable -> (value before the loop, values after one iteration)
        self.models = MODELS if models is None else {**MODELS, **models}
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.opaque_fn = opaque
        self.visited = set()   # functions analysed
        self.opaque_calls = set()
        self.call_sites = 0

    # ---------- adt info
    def variants(self, adt):
        a = self.P.adts.get(adt)
        if not a:
            return None
        return [(n, d) for n, d, _ in a["variants"]]

    # ---------- state access
    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = ("undef", str(root))
        for i, e in enumerate(path):
            if v[0] == "mref" and e[0] != "deref":
                v = self.read(st, v[1], v[2])
            v = project(v, e)
        return v

    def write(self, st, root, path, val):
        v = st.store.get(root, ("undef", str(root)))
        # writing through an embedded mref (field holding &mut)
        cur = v
        for i, e in enumerate(path):
            if cur[0] == "mref":
                return self.write(st, cur[1], cur[2] + tuple(path[i:]), val)
            cur = project(cur, e)
        st.store[root] = setpath(v, tuple(path), val)

    def load(self, st, v):
        """value behind a possible mref"""
        n = 0
        while v[0] == "mref" and n < 20:
            v = self.read(st, v[1], v[2])
            n += 1
        return v

    def deepval(self, st, v):
        """strip mrefs one level for use in terms"""
        v = self.load(st, v)
        if v[0] in ("agg",):
            return ("agg", v[1], v[2], tuple((f, self.deepval(st, x)) for f, x in v[3]))
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.deepval(st, x) for x in v[1]))
        return v

    # ---------- places
    def lval(self, st, fr, pl):
        root, path = (fr.id, pl[1]), ()
        skipbox = False
        cur_is_box = False
        lt_ = fr.fn.locals[pl[1]]
        ty = lt_
        for e in pl[2]:
            if e[0] == "*":
                v = self.read(st, root, path)
                if v[0] == "mref":
                    root, path = v[1], v[2]
                ty = None
            elif e[0] == "f":
                if ty is not None and ty[0] == "adt" and ty[1] in ("Box", "Unique", "NonNull"):
                    ty = e[2]
                    # Box internals are transparent
                    continue
                path = path + (("f", e[1]),)
                ty = e[2]
            elif e[0] == "d":
                path = path + (("as", e[1]),)
                # keep ty
            elif e[0] == "i":
                i = self.load(st, self.read(st, (fr.id, e[1]), ()))
                path = path + (("ix", i),)
                ty = None
            elif e[0] == "ci":
                if e[2]:
                    base = self.read(st, root, path)
                    path = path + (("ix", sub(("call", "len", (base,)), ("c", e[1]))),)
                else:
                    path = path + (("ix", ("c", e[1])),)
                ty = None
            else:
                path = path + (("f", "?" + str(e)),)
                ty = None
            if ty is None:
                ty = None
        return root, path

    def _ty_after(self, fr, pl):
        return ty_subst(pl[3], fr.tenv)

    def rplace(self, st, fr, pl):
        root, path = self.lval_typed(st, fr, pl)
        return self.read(st, root, path)

    def lval_typed(self, st, fr, pl):
        # like lval but keeps track of Box-internal projections after derefs
        root, path = (fr.id, pl[1]), ()
        ty = ty_subst(fr.fn.locals[pl[1]], fr.tenv)
        for e in pl[2]:
            if e[0] == "*":
                v = self.read(st, root, path)
                if v[0] == "mref":
                    root, path = v[1], v[2]
                ty = ty[2] if ty and ty[0] in ("ref", "ptr") else (ty[2][0] if ty and ty[0] == "adt" and ty[1] in ("Box",) else None)
            elif e[0] == "f":
                if ty is not None and ty[0] == "adt" and ty[1] in ("Box", "Unique", "NonNull"):
                    ty = ty_subst(e[2], fr.tenv)
                    continue
                path = path + (("f", e[1]),)
                ty = ty_subst(e[2], fr.tenv)
            elif e[0] == "d":
                path = path + (("as", e[1]),)
            elif e[0] == "i":
                i = self.load(st, self.read(st, (fr.id, e[1]), ()))
                path = path + (("ix", i),)
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
            elif e[0] == "ci":
                if e[2]:
                    base = self.read(st, root, path)
                    path = path + (("ix", sub(("call", "len", (base,)), ("c", e[1]))),)
                else:
                    path = path + (("ix", ("c", e[1])),)
                ty = ty[1] if ty and ty[0] in ("slice", "array") else None
            else:
                path = path + (("f", "?" + str(e)),)
                ty = None
        return root, path

    # ---------- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k == "place":
            return self.rplace(st, fr, o)
        if k == "const":
            t = o[2]
            while t[0] == "ref":
                t = t[2]
            if t == ("o", "str"):
                return ("c", "str:" + o[1])
            if isinstance(o[1], bool):
                return tobool(o[1])
            return num_const(o[1])
        if k == "fn":
            return ("fn", o, self.tkey(fr))
        if k == "constx":
            path, prom = o[3], o[4]
            if path is not None:
                p = path if prom is None else "%s::promoted[%d]" % (path, prom)
                f = self.P.bypath.get(p)
                if f is not None and self.depth_ok(fr):
                    env = dict(zip(f.generics, [ty_subst(a, fr.tenv) for a in o[5]])) if f.generics else fr.tenv
                    outs = self.call_fn(st, f, [], env, fr)
                    rets = [x for x in outs if x[0] == "ret"]
                    if len(rets) == 1:
                        # constants do not change the state
                        for r, v in rets[0][1].store.items():
                            if r not in st.store:
                                st.store[r] = v
                        return self.deepval(rets[0][1], rets[0][2])
                return ("k", short(path))
            t = ty_subst(o[2], fr.tenv)
            if t[0] == "closure":
                return ("clo", t[1], (), self.tkey(fr))
            if t == ("tup", ()):
                return UNIT
            return ("k", o[1])
        raise TooComplex("operand " + k)

    def tkey(self, fr):
        return tuple(sorted(fr.tenv.items(), key=repr))

    def depth_ok(self, fr):
        return fr.depth < self.max_depth

    # ---------- rvalues
    def optype(self, fr, o):
        if o[0] == "place":
            return ty_subst(o[3], fr.tenv)
        if o[0] in ("const", "constx"):
            return ty_subst(o[2], fr.tenv)
        return None

    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "raw"):
            root, path = self.lval_typed(st, fr, r[2])
            if k == "ref" and r[1] == "shr":
                v = self.read(st, root, path)
                if v[0] == "mref":
                    return v
                return self.read(st, root, path)
            if k == "raw":
                # raw borrow of a place: treat as mutable place
                return ("mref", root, path)
            return self.mkmref(st, root, path)
        if k == "cast":
            kind = r[1]
            v = self.operand(st, fr, r[2])
            if kind in ("BoxDerefTransmute", "Transmute") or kind.startswith("pc:") or kind in ("PtrToPtr", "Subtype"):
                if r[2][0] == "place" and kind in ("BoxDerefTransmute", "Transmute"):
                    t = self.optype(fr, r[2])
                    if t and t[0] == "adt" and t[1] in ("NonNull", "Unique", "Box"):
                        root, path = self.lval_typed(st, fr, r[2])
                        return ("mref", root, path)
                return v
            if kind == "FloatToInt":
                if is_num(v):
                    import math
                    return ("c", int(v[1]))
                return ("call", "trunc", (v,))
            if kind == "IntToInt" and v in (T, F):
                return ("c", 1 if v == T else 0)
            if kind in ("IntToInt", "FloatToFloat") and not is_num(v) and len(r) > 3:
                a, b = self.optype(fr, r[2]), r[3]
                a, b = a[1] if a and a[0] == "o" else None, b[1] if b and b[0] == "o" else None
                if BITS.get(b, 0) and BITS.get(a, 0) > BITS[b]:
                    return ("call", "narrow_" + b, (v,))
                if kind == "IntToInt" and a and b and a[0] == "u" and b[0] == "i" and any(c < 0 for _, c in poly(v)):
                    # an unsigned difference does not survive the cast: it underflows first
                    return ("call", "unsigned_difference", (v,))
            return v
        if k == "bin":
            a, b = self.load(st, self.operand(st, fr, r[2])), self.load(st, self.operand(st, fr, r[3]))
            return self.binop(r[1], a, b, self.optype(fr, r[2]))
        if k == "un":
            a = self.load(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                t = self.optype(fr, r[2])
                if t == ("o", "bool"):
                    return not_(a)
                return ("op", "Not", a)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return mklen(a)
            return ("op", r[1], a)
        if k == "discr":
            v = self.rplace(st, fr, r[1])
            v = self.load(st, v)
            t = ty_subst(r[1][3], fr.tenv)
            adt = t[1] if t[0] == "adt" else None
            if v[0] == "agg":
                vs = dict(self.variants(v[1]) or [])
                if v[2] in vs:
                    return ("c", vs[v[2]])
            return ("discr", v, adt)
        if k == "agg":
            kk = r[1]
            vals = [self.operand(st, fr, o) for o in r[2]]
            if kk["k"] == "tup":
                return ("tup", tuple(vals))
            if kk["k"] == "array":
                return ("arr", tuple(vals))
            if kk["k"] == "adt":
                return self.mkagg(kk["p"], kk["v"], vals)
            if kk["k"] == "closure":
                return ("clo", kk["p"], tuple(vals), self.tkey(fr))
            return ("call", "agg?", tuple(vals))
        if k == "rep":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 16:
                return ("arr", tuple([v] * r[2]))
            return ("rep", v, r[2])
        return ("unk", str(r[1])[:60])

    def mkmref(self, st, root, path):
        v = self.read(st, root, path)
        if v[0] == "mref":
            # reborrow of a place that itself holds a reference: &mut *p was resolved by deref already
            return ("mref", root, path)
        return ("mref", root, path)

    def mkagg(self, adt, variant, vals):
        if adt in ("OrderedFloat", "NotNan"):
            return vals[0]
        a = self.P.adts.get(adt)
        names = [str(i) for i in range(len(vals))]
        if a:
            for n, d, fs in a["variants"]:
                if n == variant:
                    names = [f[0] for f in fs]
        return ("agg", adt, variant, tuple((n, v) for n, v in zip(names, vals) if (adt, n) not in self.P.extra))

    def binop(self, op, a, b, ty):
        isint = ty is not None and ty[0] == "o" and (ty[1].startswith(("u", "i")))
        if op in ("Add", "Sub", "Mul"):
            if op == "Add":
                return add(a, b)
            if op == "Sub":
                return sub(a, b)
            return mul(a, b)
        if op == "Div":
            if isint:
                if is_num(a) and is_num(b) and b[1] != 0:
                    q = abs(a[1]) // abs(b[1])
                    return ("c", q if (a[1] >= 0) == (b[1] >= 0) else -q)
                return ("op", "IDiv", a, b)
            return div(a, b)
        rel = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": "=>", "Eq": "=", "Ne": "<>"}.get(op)
        if rel is not None:
            return self.relation(a, b, rel, ty)
        if op == "Cmp":
            return ("ord", a, b)
        if op in ("BitAnd", "BitOr") and ty == ("o", "bool"):
            if op == "BitAnd":
                if a == F or b == F:
                    return F
                if a == T:
                    return b
                if b == T:
                    return a
                return ("and",) + tuple(sorted((a, b), key=key))
            if a == T or b == T:
                return T
            if a == F:
                return b
            if b == F:
                return a
            return ("or",) + tuple(sorted((a, b), key=key))
        if op == "BitXor" and ty == ("o", "bool"):
            return self.relation(a, b, "<>", ty)
        if is_num(a) and is_num(b) and op == "Rem" and b[1] != 0 and isinstance(a[1], int) and isinstance(b[1], int):
            import math
            return ("c", int(math.fmod(a[1], b[1])))
        return ("op", op, a, b)

    def relation(self, a, b, rel, ty):
        while ty is not None and ty[0] == "ref":
            ty = ty[2]
        if ty == ("o", "bool") and rel in ("=", "<>"):
            r = None
            if a == T:
                r = b
            elif b == T:
                r = a
            elif a == F:
                r = not_(b)
            elif b == F:
                r = not_(a)
            elif a == b:
                r = T
            if r is not None:
                return r if rel == "=" else not_(r)
            t = ("eq",) + tuple(sorted((a, b), key=key))
            return t if rel == "=" else not_(t)
        if ty is not None and ty[0] == "adt" and ty[1] not in ("NotNan", "OrderedFloat") and rel in ("=", "<>"):
            t = self.equal(a, b)
            return t if rel == "=" else not_(t)
        if ty is not None and (ty[0] == "ptr" or ty == ("o", "char") or ty == ("o", "str")) and rel in ("=", "<>"):
            t = self.equal(a, b)
            return t if rel == "=" else not_(t)
        # discriminant comparisons
        if rel in ("=", "<>"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "discr" and y[0] == "c" and x[2]:
                    for n, d in self.variants(x[2]) or []:
                        if d == y[1]:
                            t = ("is", x[1], x[2], n)
                            return t if rel == "=" else not_(t)
        return cmp(a, b, rel)

    def equal(self, a, b):
        """structural equality of aggregates"""
        if a == b:
            return T
        for x, y in ((a, b), (b, a)):
            if y[0] == "agg":
                if x[0] == "agg":
                    if x[1] == y[1] and x[2] != y[2]:
                        return F
                    if x[1] == y[1] and len(x[3]) == len(y[3]):
                        ts = [self.equal(p[1], q[1]) for p, q in zip(x[3], y[3])]
                        ts = [t for t in ts if t != T]
                        if F in ts:
                            return F
                        if not ts:
                            return T
                        if len(ts) == 1:
                            return ts[0]
                        return ("and",) + tuple(sorted(ts, key=key))
                elif y[1] == "Option" and y[2] == "Some":
                    return ("and", ("is", x, "Option", "Some"), self.equal(project(project(x, ("as", "Some")), ("f", "0")), y[3][0][1]))
                elif not y[3]:
                    vs = self.variants(y[1])
                    if vs and len(vs) > 1:
                        return ("is", x, y[1], y[2])
        if a[0] == "c" and b[0] == "c":
            return tobool(a[1] == b[1])
        return ("eq",) + tuple(sorted((a, b), key=key))

    # ---------- boolean decisions
    def decide(self, st, t, line=None):
        """[(state, bool)]"""
        t = self.load(st, t)
        if t == T:
            return [(st, True)]
        if t == F:
            return [(st, False)]
        k = t[0]
        if k == "not":
            return [(s, not b) for s, b in self.decide(st, t[1], line)]
        if k == "cmp":
            fk = ("cmp", t[1])
            cur = st.facts.get(fk, implied_cmp(t[1]))
            yes = "".join(x for x in cur if x in t[2])
            no = "".join(x for x in cur if x not in t[2])
            if not no:
                return [(st, True)]
            if not yes:
                return [(st, False)]
            s2 = st.fork()
            st.facts[fk] = yes
            s2.facts[fk] = no
            return [(st, True), (s2, False)]
        if k == "is":
            return self.decide_is(st, t[1], t[2], t[3])
        if k in ("and", "or"):
            res = []
            todo = [(st, 1)]
            stop = k == "or"
            cur = [st]
            for a in t[1:]:
                nxt = []
                for s in cur:
                    for s2, b in self.decide(s, a, line):
                        if b == stop:
                            res.append((s2, stop))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, not stop) for s in cur]
        if k == "eq" and len(t) == 3:
            n = self.scalar_fields(t[1]) or self.scalar_fields(t[2])
            if n:
                return self.decide(st, ("and",) + tuple(cmp(project(t[1], ("f", f)), project(t[2], ("f", f)), "=") for f in n), line)
        fk = ("b", t)
        if fk in st.facts:
            return [(st, st.facts[fk])]
        s2 = st.fork()
        st.facts[fk] = True
        s2.facts[fk] = False
        return [(st, True), (s2, False)]

    def scalar_fields(self, x):
        """names of the fields of a tuple or struct that holds numbers only (its equality is field by field)"""
        if x[0] == "tup":
            return None
        ty = term_type(self.P, getattr(self, "ptypes", {}), x)
        if ty and ty[0] == "tup":
            fs = [(str(i), f) for i, f in enumerate(ty[1])]
        elif ty and ty[0] == "adt" and ty[1] in self.P.adts and self.P.adts[ty[1]]["kind"] == "struct":
            fs = [(f[0], f[1]) for f in self.P.adts[ty[1]]["variants"][0][2]]
        else:
            return None
        if 1 < len(fs) <= 4 and all(f[1][0] == "o" and f[1][1] in SCALARS for f in fs):
            return [f[0] for f in fs]
        return None

    def decide_is(self, st, x, adt, var):
        x = self.load(st, x)
        if x[0] == "agg":
            return [(st, x[2] == var)]
        if x[0] == "ord":
            rel = {"Less": "<", "Equal": "=", "Greater": ">"}[var]
            return self.decide(st, cmp(x[1], x[2], rel))
        if x[0] == "upd":
            for p, _ in x[2]:
                if p[0][0] == "as":
                    return [(st, p[0][1] == var)]
        if x[0] == "as":
            return [(st, x[2] == var)]
        vs = self.variants(adt)
        if not vs:
            return self.decide(st, ("b", ("is", x, adt, var)))
        allv = frozenset(n for n, _ in vs)
        fk = ("is", x)
        cur = st.facts.get(fk, allv)
        if var not in cur:
            return [(st, False)]
        if cur == frozenset([var]):
            return [(st, True)]
        s2 = st.fork()
        st.facts[fk] = frozenset([var])
        s2.facts[fk] = cur - {var}
        return [(st, True), (s2, False)]

    def split_opt(self, st, v, adt="Option", yes="Some"):
        """[(state, payload or None)]"""
        v = self.load(st, v)
        if v[0] == "agg":
            if v[2] == yes:
                return [(st, v[3][0][1] if v[3] else UNIT)]
            return [(st, None)]
        out = []
        for s, b in self.decide_is(st, v, adt, yes):
            out.append((s, project(project(v, ("as", yes)), ("f", "0")) if b else None))
        return out

    def root_frame(self, fn):
        f = Frame()
        self.fid += 1
        f.id, f.fn, f.tenv, f.depth, f.stack = self.fid, fn, {}, 0, (fn.path,)
        return f

    # ---------- function bodies
    def call_fn(self, st, fn, args, tenv, fr):
        """-> list of ('ret', st, val) / ('panic', st, None)"""
        self.visited.add(fn.name)
        f = Frame()
        self.fid += 1
        f.id = self.fid
        f.fn = fn
        f.tenv = tenv or {}
        f.depth = (fr.depth + 1) if fr else 0
        f.stack = (fr.stack if fr else ()) + (fn.path,)
        for i, a in enumerate(args):
            st.store[(f.id, i + 1)] = a
        outs = self.run(f, st, 0, None, None)
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                v = s.store.get((f.id, 0), UNIT)
                # values must not point into the dead frame unless still needed
                v = self.unframe(s, v, f.id)
                for kk in [q for q in s.store if q[0] == f.id]:
                    if not self.root_escapes(s, kk, v):
                        del s.store[kk]
                res.append(("ret", s, v))
            else:
                res.append(o)
        return res

    def root_escapes(self, st, root, v):
        return False

    def unframe(self, st, v, fid):
        """replace mrefs to locals of a dying frame by their values"""
        if v[0] == "mref":
            if isinstance(v[1], tuple) and v[1][0] == fid:
                return self.unframe(st, self.read(st, v[1], v[2]), fid)
            return v
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple((f, self.unframe(st, x, fid)) for f, x in v[3]))
        if v[0] in ("tup", "arr"):
            return (v[0], tuple(self.unframe(st, x, fid) for x in v[1]))
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.unframe(st, x, fid) for x in v[2]), v[3])
        if v[0] == "iter":
            return ("iter", self.unframe(st, v[1], fid) if v[1][0] == "mref" else v[1], tuple(tuple(self.unframe(st, y, fid) if isinstance(y, tuple) and y and y[0] in ("clo", "mref") else y for y in a) for a in v[2]))
        return v

    def run(self, fr, st, start, header, region):
        """Execute from block `start`.  With header/region set (loop analysis) stops on back edge / exit."""
        loops = self.P.loops(fr.fn)
        work = [(st, start, True)]
        outs = []
        while work:
            st, b, first = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise TooComplex("steps")
            if len(outs) + len(work) > self.max_paths:
                raise TooComplex("paths")
            if region is not None and not first:
                if b == header:
                    outs.append(("back", st))
                    continue
                if b not in region:
                    outs.append(("exit", st, b))
                    continue
            if b in loops and not (region is not None and b == header and first):
                for o in self.mir_loop(fr, st, b, loops[b]):
                    if o[0] == "goto":
                        work.append((o[1], o[2], False))
                    else:
                        outs.append(o)
                continue
            blk = fr.fn.blocks[b]
            stmts, term, line, exp = blk
            for pl, rv, ln in stmts:
                if rv[0] == "setdiscr":
                    continue
                v = self.rvalue(st, fr, rv, pl)
                root, path = self.lval_typed(st, fr, pl)
                self.write(st, root, path, v)
            k = term[0]
            if k == "goto":
                work.append((st, term[1], False))
            elif k == "ret":
                outs.append(("ret", st))
            elif k == "unreach":
                pass
            elif k == "assert":
                work.append((st, term[3], False))
            elif k == "switch":
                before = dict(st.facts)
                nxt = self.switch(st, fr, term, line)
                div = self.diverging(fr.fn)
                if any(nb in div for _, nb in nxt):
                    for s, nb in nxt:
                        if nb not in div:
                            s.asserted |= {k for k, v in s.facts.items() if before.get(k) != v and k[0] != "is"}
                for s, nb in nxt:
                    work.append((s, nb, False))
            elif k == "call":
                for o in self.call(st, fr, term, line, exp):
                    if o[0] == "ret":
                        if term[4] is None:
                            outs.append(("panic", o[1], None))
                            continue
                        s = o[1]
                        root, path = self.lval_typed(s, fr, term[3])
                        self.write(s, root, path, o[2])
                        work.append((s, term[4], False))
                    else:
                        outs.append(o)
            else:
                raise TooComplex("terminator " + k)
        return outs

    def diverging(self, fn):
        """blocks from which the function cannot return"""
        memo = self.__dict__.setdefault("_div", {})
        r = memo.get(fn)
        if r is None:
            good = {i for i, b in enumerate(fn.blocks) if b is not None and b[1][0] == "ret"}
            while True:
                n = len(good)
                for i, b in enumerate(fn.blocks):
                    if b is None or i in good:
                        continue
                    t = b[1]
                    succ = [t[1]] if t[0] == "goto" else [t[3]] if t[0] == "assert" else [x for _, x in t[2]] + [t[3]] if t[0] == "switch" else [t[4]] if t[0] == "call" else []
                    if any(x in good for x in succ):
                        good.add(i)
                if len(good) == n:
                    break
            r = memo[fn] = frozenset(i for i, b in enumerate(fn.blocks) if b is not None and i not in good and b[1][0] != "unreach")
        return r

    def switch(self, st, fr, term, line):
        v = self.load(st, self.operand(st, fr, term[1]))
        targets, other = term[2], term[3]
        if v[0] == "c" and isinstance(v[1], int):
            for x, b in targets:
                if x == v[1]:
                    return [(st, b)]
            return [(st, other)]
        if v in (T, F):
            want = 1 if v == T else 0
            for x, b in targets:
                if x == want:
                    return [(st, b)]
            return [(st, other)]
        out = []
        if v[0] == "discr":
            names = {d: n for n, d in (self.variants(v[2]) or [])}
            cur = st
            ok = True
            unre = fr.fn.blocks[other] is not None and fr.fn.blocks[other][1][0] == "unreach"
            covered = 0
            for x, b in targets:
                n = names.get(x)
                if n is None:
                    ok = False
                    break
                rest = None
                for s, yes in self.decide_is(cur, v[1], v[2], n):
                    if yes:
                        out.append((s, b))
                    else:
                        rest = s
                cur = rest
                if cur is None:
                    break
            if ok:
                if cur is not None and not unre:
                    out.append((cur, other))
                return out
            raise TooComplex("discr switch")
        ty = self.optype(fr, term[1])
        if ty == ("o", "bool"):
            for s, b in self.decide(st, v, line):
                want = 1 if b else 0
                tgt = other
                for x, bb in targets:
                    if x == want:
                        tgt = bb
                out.append((s, tgt))
            return out
        cur = st
        for x, b in targets:
            rest = None
            for s, yes in self.decide(cur, cmp(v, ("c", x), "="), line):
                if yes:
                    out.append((s, b))
                else:
                    rest = s
            cur = rest
            if cur is None:
                break
        if cur is not None:
            out.append((cur, other))
        return out

    # ---------- calls
    def call(self, st, fr, term, line, exp):
        fo = term[1]
        args = [self.operand(st, fr, o) for o in term[2]]
        self.call_sites += 1
        site = (fr.fn.file, line, fr.fn.name)
        if fo[0] == "fn":
            targs = [ty_subst(a, fr.tenv) for a in fo[2]]
            argtys = [self.optype(fr, o) for o in term[2]]
            return self.invoke(st, fr, fo, targs, args, argtys, site)
        f = self.load(st, self.operand(st, fr, fo))
        return self.call_value(st, fr, f, args, site)

    def call_value(self, st, fr, f, args, site):
        """call a closure / fn item / fn pointer value with already-untupled args"""
        f = self.load(st, f)
        if f[0] == "clo":
            fn = self.P.bypath.get(f[1])
            if fn is None or fr.depth >= self.max_depth or f[1] in fr.stack[:-1] and fr.stack.count(f[1]) > 1:
                return [("ret", st, ("call", "closure?", tuple(self.deepval(st, a) for a in args)))]
            return self.call_fn(st, fn, [f] + list(args), dict(f[3]), fr)
        if f[0] == "fn":
            fo = f[1]
            env = dict(f[2])
            targs = [ty_subst(a, env) for a in fo[2]]
            return self.invoke(st, fr, fo, targs, list(args), [None] * len(args), site)
        return [("ret", st, ("call", "apply", (f,) + tuple(self.deepval(st, a) for a in args)))]

    def invoke(self, st, fr, fo, targs, args, argtys, site):
        path, tr, meth, rpath, rargs, ctor = fo[1], fo[3], fo[4], fo[5], fo[6], fo[7]
        if ctor is not None:
            return [("ret", st, self.mkagg(ctor[0], ctor[1], args))]
        trs = short(tr) if tr else None
        tname = "%s::%s" % (trs, meth) if tr else None
        # FnOnce etc.
        if trs in ("FnOnce", "FnMut", "Fn") and meth in ("call_once", "call_mut", "call"):
            a = self.load(st, args[1])
            al = list(a[1]) if a[0] == "tup" else [a]
            return self.call_value(st, fr, args[0], al, site)
        # local resolution
        target = None
        tenv = {}
        if rpath is not None and rpath in self.P.bypath:
            target = self.P.bypath[rpath]
            ra = [ty_subst(a, fr.tenv) for a in rargs]
            tenv = dict(zip(target.generics, ra))
        elif tr and targs:
            r = self.P.resolve_trait(trs, meth, targs)
            if r:
                target, tenv = r
                if len(tenv) < len(target.generics):
                    # method-level generics come last
                    extra = targs[len([1 for _ in range(1)]):]
                    ng = [g for g in target.generics if g not in tenv]
                    for g, t in zip(ng, targs[len(targs) - len(ng):]):
                        tenv.setdefault(g, t)
        if target is None and trs and targs and targs[0][0] not in ("adt",) and args:
            ty = term_type(self.P, self.ptypes, self.deepval(st, args[0]))
            r = self.P.resolve_trait(trs, meth, [ty] + list(targs[1:])) if ty and ty[0] == "adt" and ty[1] in self.P.adts else None
            if r:
                target, tenv = r
                tenv = dict(tenv)
                tenv.setdefault("Self", ty)
        if target is None and path in self.P.bypath:
            target = self.P.bypath[path]
            tenv = dict(zip(target.generics, targs))
        name = target.name if target is not None else short(rpath or path)
        info = {"name": name, "tname": tname, "targs": targs, "argtys": argtys, "site": site, "path": path, "target": target, "fr": fr}
        if name in self.boundary or (tname in self.boundary):
            return self.opaque(st, name if name in self.boundary else tname, args, info)
        derived = target is not None and target.exp and target.impl_trait in ("PartialEq", "Clone", "PartialOrd", "Ord", "Debug", "Hash", "Eq")
        # models: a local (hand-written) impl takes precedence over trait models
        if target is None or derived:
            for nm in (tname, name, short(path)):
                m = self.models.get(nm) if nm else None
                if m is not None:
                    r = m(self, st, fr, args, info)
                    if r is not None:
                        return [x if len(x) == 3 else ("ret",) + tuple(x) for x in r]
            return self.opaque(st, tname or name, args, info)
        m = self.models.get("!" + name)
        if m is not None:
            r = m(self, st, fr, args, info)
            if r is not None:
                return [x if len(x) == 3 else ("ret",) + tuple(x) for x in r]
        if fr.depth >= self.max_depth or target.path in fr.stack:
            return self.opaque(st, name, args, info)
        if self.opaque_fn is not None and self.opaque_fn(target):
            return self.opaque(st, name, args, info)
        return self.call_fn(st, target, args, tenv, fr)

    def opaque(self, st, name, args, info):
        self.opaque_calls.add(name)
        vals = tuple(("blurred",) if i in self.blur.get(name, ()) else self.deepval(st, a) for i, a in enumerate(args))
        ret = ("call", name, vals)
        mutated = False
        pos = []
        for i, a in enumerate(args):
            if a[0] == "mref":
                pos.append(i)
                self.write(st, a[1], a[2], ("mut", name, i, vals))
                mutated = True
            elif a[0] == "clo":
                for j, cap in enumerate(a[2]):
                    if cap[0] == "mref":
                        self.write(st, cap[1], cap[2], ("mut", name, "cap%d" % j, vals))
                        mutated = True
        if mutated or (info.get("target") is not None and name in self.boundary):
            st.events.append((name, vals, info["site"], tuple(pos)))
        tg = info.get("target")
        rty = tg.locals[0] if tg is not None and tg.locals else None
        if isinstance(rty, tuple) and rty[0] == "ref" and rty[1] is True and [t for t in tg.locals[1:tg.argc + 1]].count(rty) == 1:
            # `fn f(&mut self, ..) -> &mut Self`: the only such reference it can return is the one it got
            a = args[tg.locals[1:tg.argc + 1].index(rty)]
            if a[0] == "mref":
                ret = a
        return [("ret", st, ret)]

    # ---------- loops
    def mir_loop(self, fr, st, header, region):
        # convert iterators advanced inside the region
        depth = st.ldepth
        its = []
        for b in region:
            blk = fr.fn.blocks[b]
            if blk is None:
                continue
            for pl, rv, ln in blk[0]:
                if rv[0] == "ref" and rv[1] == "mut" and not rv[2][2]:
                    r = (fr.id, rv[2][1])
                    v = st.store.get(r)
                    if v is not None and v[0] == "iter" and r not in its:
                        its.append(r)
        st.ldepth = depth + 1
        for r in its:
            v = st.store[r]
            st.store[r] = ("iter*", v[1], v[2], depth)
        src = None
        if len(its) == 1:
            src = its_src(st.store[its[0]])

        def body(s):
            return self.run(fr, s, header, header, region)

        ctr = self.counting(st, body, depth) if not its else None
        if ctr is not None:
            pl, rounds, down, of = ctr
            start = self.read(st, *pl)
            src = ("rev", ("range", ("c", 0), rounds)) if down else rounds
            end = ("c", 0) if down else rounds[2] if start == ("c", 0) else ("call", "max", (start, rounds[2]))
            plain = body

            def body(s, plain=plain):
                e = s.fork()
                e.facts[("exh", src, depth)] = True
                n = ("c", 0) if down else rounds[2] if of is None else mklen(self.read(s, *of))
                self.write(e, pl[0], pl[1], n)
                out = [o for o in plain(e) if o[0] in ("exit", "ret")]
                for o in out:
                    self.write(o[1], pl[0], pl[1], end)
                el = ("elem", src, depth)
                c = cmp(add(el, ("c", 1)), ("c", 0), ">") if down else cmp(el, n, "<")
                if c[0] == "cmp":
                    s.facts[("cmp", c[1])] = c[2]
                    s.asserted = s.asserted | {("cmp", c[1])}
                self.write(s, pl[0], pl[1], add(el, ("c", 1)) if down else el)
                for o in plain(s):
                    if o[0] == "back":
                        self.write(o[1], pl[0], pl[1], start)
                    out.append(o)
                return out

        res = []
        for o in self.loop(st, body, depth, src):
            s = o[1]
            if o[0] == "exit":
                s.ldepth = depth
                res.append(("goto", s, o[2]))
            elif o[0] in ("ret", "panic"):
                s.ldepth = depth
                res.append(o)
        return res

    def fixpoint(self, entry, body, depth, lid):
        """runs the body with the places it changes havocked: ({place: initial value}, outcomes, state at the head)"""
        havoc = {}   # (root, path) -> init
        outs = None
        for _ in range(6):
            s0 = entry.fork()
            for (root, path), init in havoc.items():
                self.write(s0, root, path, ("lv", lvname(root, path) + (lid,), depth))
            nev = len(s0.events)
            s_in = s0.fork()
            kept, self.skips = getattr(self, "skips", []), []
            outs = list(body(s0))
            outs += [("back", s) for d, s in self.skips if d == depth]     # elements an adaptor filtered out: nothing happens
            self.skips = kept
            new = {}
            for o in outs:
                if o[0] == "back":
                    for root, v in o[1].store.items():
                        if root not in s_in.store:
                            continue
                        if v is s_in.store[root] or v == s_in.store[root]:
                            continue
                        for p in diff(s_in.store[root], v, depth):
                            if p == "own":
                                continue
                            new[(root, p)] = True
            add_ = {}
            for (root, p) in new:
                if (root, p) in havoc:
                    continue
                if any(r == root and p[: len(q)] == q for (r, q) in havoc):
                    continue
                if root[0] == "P" or True:
                    add_[(root, p)] = self.read(entry, root, p)
            add_ = {(root, p): v for (root, p), v in add_.items() if not any(r == root and len(q) < len(p) and q == p[: len(q)] for (r, q) in add_)}
            if not add_:
                break
            # drop deeper havocs subsumed by the new ones
            for (root, p) in list(havoc):
                if any(r == root and q == p[: len(q)] for (r, q) in add_):
                    del havoc[(root, p)]
            havoc.update(add_)
        return havoc, outs, s_in

    def counting(self, st, body, depth):
        """`while i < n { ..; i += 1 }` and its mirror image: (place of i, number of rounds, downwards?), if it is one"""
        kept = self.lid
        self.lid += 1
        entry = st.fork()
        try:
            lid = self.lid
            havoc, outs, s_in = self.fixpoint(entry, body, depth, lid)
            lvof = {pl: ("lv", lvname(*pl) + (lid,), depth) for pl in havoc}
        finally:
            self.lid = kept
        backs = [o[1] for o in outs if o[0] == "back"]
        exits = [o[1] for o in outs if o[0] == "exit"]
        if not backs or not exits or any(k[0] == "exh" and k[2] == depth and k not in entry.facts for o in outs for k in o[1].facts):
            return None
        new = lambda s: {k: v for k, v in s.facts.items() if entry.facts.get(k) != v and k not in s.asserted}
        for pl, init in havoc.items():
            if pl[1]:
                continue
            lv = lvof[pl]
            ups = [self.read(b, *pl) for b in backs]
            for step in (1, -1):
                if any(u != add(lv, ("c", step)) for u in ups):
                    continue
                for x in exits:
                    d = new(x)
                    if len(d) != 1:
                        continue
                    (k, v), = d.items()
                    if k[0] != "cmp":
                        continue
                    q = dict(poly(k[1]))
                    c = q.pop(((lv, 1),), None)
                    if c is None or any(occurs(lv, m) for m in q) or abs(c) != 1:
                        continue
                    bound = add(("c", 0), neg(self.lin(q))) if c == 1 else self.lin(q)
                    v = set(v) if c == 1 else {{"<": ">", ">": "<", "=": "="}[w] for w in v}
                    if any(k not in b.facts for b in backs):
                        continue
                    if step == 1 and v == {"=", ">"}:
                        pass
                    elif step == -1 and v in ({"=", "<"}, {"="}) and bound == ("c", 0):
                        return pl, init, True, None
                    else:
                        continue
                    # the bound must stay what it was
                    n0, ok, of = bound, True, None
                    for pl2, i2 in havoc.items():
                        l2 = lvof[pl2]
                        if occurs(l2, bound):
                            if bound == mklen(l2) and all(mklen(self.read(b, *pl2)) == mklen(l2) for b in backs):
                                n0, of = mklen(i2), pl2
                            else:
                                ok = False
                    if ok and init[0] == "c" and isinstance(init[1], int):
                        return pl, ("range", init, n0), False, of
        return None

    def lin(self, q):
        t = ("c", 0)
        for m, c in q.items():
            x = ("c", c)
            for a, e in m:
                for _ in range(e):
                    x = mul(x, a)
            t = add(t, x)
        return t

    def loop(self, st, body, depth, src):
        """Generic loop analysis. body(state)-> outcomes; 'back' outcomes are iterations."""
        entry = st
        self.lid += 1
        lid = self.lid
        havoc, outs, s_in = self.fixpoint(entry, body, depth, lid)
        s_ref = s_in
        base_facts = entry.facts
        nev = len(entry.events)

        def dfacts(s):
            return frozenset((k, v) for k, v in s.facts.items() if base_facts.get(k) != v and k[0] != "exh" and k not in s.asserted)

        backs = [o[1] for o in outs if o[0] == "back"]
        # per-place update expressions
        upd = {}
        for (root, p), init in havoc.items():
            lv = ("lv", lvname(root, p) + (lid,), depth)
            upd[(root, p)] = (lv, init, [(dfacts(b), self.unit_value(b, init, self.read(b, root, p))) for b in backs])
            self.lvdef[lv] = (init, [u for _, u in upd[(root, p)][2]])
        # element-wise updates
        ownupd = {}
        for b in backs:
            for root, v in b.store.items():
                r0 = s_ref.store.get(root)
                if r0 is None or v == r0:
                    continue
                for pre in own_paths(r0, v, depth):
                    ownupd.setdefault((root, pre), [])
        for (root, pre), lst in ownupd.items():
            for b in backs:
                vec0 = self.read(s_ref, root, pre)
                vec1 = self.read(b, root, pre)
                ei = find_ei(vec1, depth)
                if ei is None:
                    lst.append((dfacts(b), ("elem", src if src is not None and src[0] != "zip" else vec0, depth)))
                else:
                    lst.append((dfacts(b), project(vec1, ("ix", ei))))
        # loop event
        evs = frozenset((dfacts(b), tuple((e[0], e[1]) for e in b.events[nev:])) for b in backs if len(b.events) > nev)
        evraw = [e for b in backs for e in b.events[nev:]]
        res = []
        # `break`-style exits: an exit whose facts are pure and which is shared is turned into EX
        early = [o for o in outs if o[0] in ("exit", "ret") and not any(k[0] == "exh" and v and k[2] == depth for k, v in o[1].facts.items())]
        exh = [o for o in outs if o[0] in ("exit", "ret") and any(k[0] == "exh" and v and k[2] == depth for k, v in o[1].facts.items())]
        pan = [o for o in outs if o[0] == "panic"]
        isfor = bool(exh)
        nsrc = src
        if isfor and src is None:
            for o in exh:
                for k, v in o[1].facts.items():
                    if k[0] == "exh" and k[2] == depth:
                        nsrc = k[1]
        # finals for exhaustion
        finals = {}
        if nsrc is not None and nsrc[0] == "itermut":
            v0 = self.read(s_ref, nsrc[1], nsrc[2])
            if v0[0] not in ("mref", "undef", "iter"):
                def un(x):
                    return subst(subst(x, ("elem", nsrc, depth), ("elem", v0, depth)), ("ei", nsrc, depth), ("ei", v0, depth))
                upd = {pl: (lv, init, [(un(fs), un(u)) for fs, u in ups]) for pl, (lv, init, ups) in upd.items()}
                nsrc = v0
        # a `break` that leaves the accumulators alone and depends on nothing but them is an iteration that does nothing
        # from then on: fold over the remaining elements without changing anything
        idle = []
        if isfor and upd and not ownupd:
            for o in early:
                s = o[1]
                fs = dfacts(s)
                if o[0] == "exit" and all(self.read(s, *pl) == u[0] for pl, u in upd.items()) \
                        and not any(isinstance(t, tuple) and len(t) == 3 and t[0] in ("elem", "ei") and t[2] == depth for t in walk(fs)) \
                        and any(occurs(u[0], fs) for u in upd.values()):
                    idle.append(o)
            for o in idle:
                for pl, u in upd.items():
                    u[2].append((dfacts(o[1]), u[0]))
            early = [o for o in early if not any(o is i for i in idle)]
        for pl, (lv, init, ups) in upd.items():
            finals[pl] = fold_term(lv, init, nsrc, ups, depth, [u[0] for u in upd.values()]) if isfor else None
        if isfor and nsrc is not None:
            self.joint_fold(upd, finals, nsrc, depth)
        ex_sets = []
        groups = {}
        part_of = {}
        stop_vals = {}
        if isfor:
            for o in early:
                s = o[1]
                fs = dfacts(s)
                stop_vals[id(o)] = {pl: {self.read(s, *pl), u[0]} for pl, u in upd.items()}
                sig = self.exit_sig(o, s_ref, depth)
                groups.setdefault(sig, []).append((o, fs))
            for sig, lst in groups.items():
                fset = frozenset(fs for _, fs in lst)
                part = self.chain_part(nsrc, depth, (fset, sig[2]))
                part_of[sig] = part
                ex_sets.append((sig, ("exists",) + norm_src(part if part is not None else nsrc, fset, depth), lst))
        for o in exh:
            s = o[1]
            nf = dict(base_facts)
            for sig, ex, lst in ex_sets:
                nf[("b", ex)] = False
            s.facts = nf
            sticky = []
            for pl, (lv, init, ups) in upd.items():
                fin = finals[pl]
                if fin is not None:
                    # substitute in the whole store (locals copied from it)
                    self.write(s, pl[0], pl[1], fin)
                    k_ = self.settled(fin, depth)
                    if k_:
                        sticky.append((pl, k_))
            for (root, pre), lst in ownupd.items():
                old = self.read(s_ref, root, pre)
                lst = subst(subst(frozenset(lst), ("elem", ("itermut", root, tuple(pre)), depth), ("elem", old, depth)), ("ei", ("itermut", root, tuple(pre)), depth), ("ei", old, depth))
                self.write(s, root, pre, ("mapped",) + norm_src(old, lst, depth))
            s.events = list(entry.events)
            if evs:
                s.events.append(("loop", norm_src(nsrc, evs, depth), evraw[0][2] if evraw else None, evraw))
            cases = [s]
            for pl, k_ in sticky:
                nxt_ = []
                for c_ in cases:
                    for s2, val in self.alternatives(c_, k_):
                        self.write(s2, pl[0], pl[1], val)
                        nxt_.append(s2)
                cases = nxt_
            res += [(o[0], c_) + tuple(o[2:]) for c_ in cases]
        seen_idle = set()
        for o in idle:
            s = o[1]
            if o[2] in seen_idle:
                continue
            seen_idle.add(o[2])
            s.facts = dict(base_facts)
            for sig, ex, lst in ex_sets:
                s.facts[("b", ex)] = False
            s.events = list(entry.events)
            if evs:
                s.events.append(("loop", norm_src(nsrc, evs, depth), evraw[0][2] if evraw else None, evraw))
            cases = [s]
            for pl, (lv, init, ups) in upd.items():
                if finals[pl] is None:
                    continue
                k_ = self.settled(finals[pl], depth)
                nxt_ = []
                for c_ in cases:
                    for s2, val in ([(c_, finals[pl])] if not k_ else self.alternatives(c_, k_)):
                        for r in list(s2.store):
                            if occurs(lv, s2.store[r]):
                                s2.store[r] = subst(s2.store[r], lv, val)
                        nxt_.append(s2)
                cases = nxt_
            res += [(o[0], c_) + tuple(o[2:]) for c_ in cases]
        if isfor:
            for sig, ex, lst in ex_sets:
                o, fs = lst[0]
                s = o[1]
                xsrc = part_of[sig] if part_of[sig] is not None else nsrc
                elem = ("elem", xsrc, depth)
                uses_elem = sig[-1]
                nf = dict(base_facts)
                for sig2, ex2, _ in ex_sets:
                    if part_of[sig] is not None and part_of[sig2] is not None and part_of[sig2] != xsrc \
                            and self.parts(nsrc).index(part_of[sig2]) < self.parts(nsrc).index(xsrc):
                        nf[("b", ex2)] = False      # an exit in an earlier part of the chain would have come first
                nf[("b", ex)] = True
                if uses_elem:
                    # keep one path per group; element becomes the witness
                    w = ("find", ex[1], ex[2])
                    elem_v = elem
                    if ex[1] != xsrc and xsrc[0] == "range":
                        # an index loop: the index is the position of the witness, v[index] the witness
                        elem_v, w = ("elem", ex[1], depth), ("findidx", ex[1], ex[2])
                    elif ex[1] != xsrc and xsrc[0] == "rev" and xsrc[1][0] == "range" and ex[1][0] == "rev":
                        elem_v = ("elem", ex[1], depth)
                        w = ("rfindidx", ex[1][1], subst(ex[2], elem_v, ("elem", ex[1][1], depth)))
                    for r in list(s.store):
                        v = s.store[r]
                        if elem_v != elem and occurs(elem_v, v):
                            v = s.store[r] = subst(v, elem_v, ("find", ex[1], ex[2]))
                        if occurs(elem, v):
                            s.store[r] = subst(v, elem, w)
                        v = s.store[r]
                        if occurs(("ei", xsrc, depth), v):
                            s.store[r] = subst(v, ("ei", xsrc, depth), ("findidx", ex[1], ex[2]))
                # a loop that stops once a collection it fills has some size: the rest of the elements is not looked at
                for pl, (lv, init, ups) in upd.items():
                    if len(lst) == 1 and any(t_[:2] == ("call", "len") and occurs(v_, t_) for t_ in walk(fs) if isinstance(t_, tuple) and len(t_) > 2 for v_ in stop_vals.get(id(o), {}).get(pl, ())):
                        self.write(s, pl[0], pl[1], ("stopped", init, nsrc))
                        nf = {k: v for k, v in nf.items() if k != ("b", ex)}
                s.facts = nf
                ev_now = s.events[nev:]
                s.events = list(entry.events)
                if evs:
                    s.events.append(("loop", norm_src(nsrc, evs, depth), evraw[0][2] if evraw else None, evraw))
                s.events += ev_now
                res.append(o)
        else:
            order = list(upd)
            stops = [dfacts(o[1]) for o in early]
            for j, pl in enumerate(order):
                stops = [subst(fs, upd[pl][0], ("acc", depth, j)) for fs in stops]
            wterms = joint_terms([upd[pl][1] for pl in order], self.joint_rows(upd, order, depth), None, depth, stops) if order and backs else []
            for o in early:
                s = o[1]
                for pl, t in zip(order, wterms):
                    lv = upd[pl][0]
                    for r in list(s.store):
                        if occurs(lv, s.store[r]):
                            s.store[r] = subst(s.store[r], lv, t)
                    if any(occurs(lv, k) for k in s.facts):
                        s.facts = {subst(k, lv, t): v for k, v in s.facts.items()}
                    if o[0] == "ret" and len(o) > 2 and isinstance(o[2], tuple):
                        o = (o[0], o[1], subst(o[2], lv, t)) + tuple(o[3:])
                ev_now = s.events[nev:]
                s.events = list(entry.events)
                if evs or havoc:
                    s.events.append(("while", frozenset((dfacts(b), tuple((e[0], e[1]) for e in b.events[nev:]), frozenset((lv, u) for (pl, (lv, init, ups)) in upd.items() for u in [self.read(b, pl[0], pl[1])])) for b in backs),
                                     evraw[0][2] if evraw else None, evraw, tuple((lv, init) for (lv, init, _) in upd.values())))
                s.events += ev_now
                res.append(o)
        for o in pan:
            res.append(o)
        return res

    def settled(self, fin, depth):
        """(value otherwise, [(value, condition)]) of accumulators whose final value is a matter of some elements only"""
        k = sticky_fold(fin, depth) or self.flag_fold(fin, depth) or extreme_fold(fin, depth)
        return (k[0], [(k[1], k[2])]) if k else option_fold(fin, depth)

    def alternatives(self, st, k):
        init, alts = k
        out, rest = [], [st]
        for val, ex in alts:
            nxt = []
            for s in rest:
                for s2, b in self.decide(s, ex):
                    if b:
                        out.append((s2, val))
                    else:
                        nxt.append(s2)
            rest = nxt
        return out + [(s, init) for s in rest]

    def flag_fold(self, t, depth):
        """flag = flag || c(element), in any spelling: raised iff c holds for some element"""
        if t[0] != "fold" or t[1] not in (T, F) or not isinstance(t[3], frozenset):
            return None
        acc = ("acc", depth)
        K = F if t[1] == T else T
        hit = set()
        for fs, v in t[3]:
            if v == acc:
                continue
            s0 = St()
            s0.facts = dict(fs)
            for s, b in self.decide(s0, v):
                d = dict(s.facts)
                w = d.pop(("b", acc), None)
                if occurs(acc, frozenset(d.items())):
                    return None
                if tobool(b) == K:
                    if w is None or tobool(w) != K:
                        hit.add(frozenset(d.items()))
                elif w is None or tobool(w) == K:
                    return None         # the flag can be taken back
        if not hit or frozenset() in hit:
            return None
        return t[1], K, ("exists", t[2], frozenset(hit))

    def parts(self, src):
        return self.parts(src[1]) + self.parts(src[2]) if src is not None and src[0] == "chain" and len(src) == 3 else [src]

    def chain_part(self, src, depth, terms):
        """the one part of a.chain(b) an exit is about"""
        if src is None or src[0] != "chain":
            return None
        used = {t[1] for t in walk(terms) if isinstance(t, tuple) and len(t) == 3 and t[0] in ("elem", "ei") and t[2] == depth}
        ps = self.parts(src)
        return list(used)[0] if len(used) == 1 and list(used)[0] in ps and len(set(ps)) == len(ps) else None

    def joint_fold(self, upd, finals, src, depth):
        """accumulators that depend on each other: one simultaneous fold, projected"""
        rest = [pl for pl in upd if finals[pl] is None]
        if not rest:
            return
        order = list(upd)
        terms = joint_terms([upd[pl][1] for pl in order], self.joint_rows(upd, order, depth), src, depth)
        for pl, t in zip(order, terms):
            if finals[pl] is None:
                finals[pl] = t

    def joint_rows(self, upd, order, depth):
        rows = []
        for i in range(len(upd[order[0]][2])):
            fs = upd[order[0]][2][i][0]
            us = tuple(upd[pl][2][i][1] for pl in order)
            for j, pl in enumerate(order):
                acc = ("acc", depth, j)
                fs = subst(fs, upd[pl][0], acc)
                us = subst(us, upd[pl][0], acc)
            rows.append((fs, us))
        return rows

    def exit_sig(self, o, s_ref, depth):
        """signature of an early exit: where it goes and what it changed (paths with equal signature are merged)"""
        s = o[1]
        ch = []
        uses = False
        for r, v in s.store.items():
            if s_ref.store.get(r) != v:
                ch.append((r, v))
                if any(isinstance(t, tuple) and len(t) == 3 and t[0] in ("elem", "ei") and t[2] == depth for t in walk(v)):
                    uses = True
        dest = o[2] if o[0] == "exit" else "ret"
        return (o[0], dest, frozenset(ch), tuple((e[0], e[1]) for e in s.events), uses)

    # closure-driven loop over an iterator value (for_each & co)
    def iter_loop(self, st, fr, it, fnbody, site):
        depth = st.ldepth
        st.ldepth = depth + 1
        src = its_src(it)

        def body(s):
            res = []
            # exhaustion
            e = s.fork()
            e.facts[("exh", src, depth)] = True
            res.append(("exit", e, "done"))
            for s2, el in self.expand(s, fr, it, depth, site):
                if el == SKIP:
                    res.append(("back", s2))
                    continue
                for o in fnbody(s2, el):
                    res.append(o)
            return res
        outs = []
        for o in self.loop(st, body, depth, src):
            o[1].ldepth = depth
            outs.append(o)
        return outs

    def expand(self, st, fr, it, depth, site):
        """one abstract element of iterator value `it`: [(state, elem|SKIP)]"""
        base, ads = it[1], it[2]
        cur = [(s, e) for s, e in self.base_elem(st, fr, base, depth, site)]
        for ad in ads:
            nxt = []
            for s, e in cur:
                if e == SKIP:
                    nxt.append((s, e))
                    continue
                k = ad[0]
                if k == "map":
                    for o in self.call_value(s, fr, ad[1], [e], site):
                        if o[0] == "ret":
                            nxt.append((o[1], o[2]))
                elif k in ("filter", "take_while"):
                    for o in self.call_value(s, fr, ad[1], [self.load(s, e)], site):
                        if o[0] == "ret":
                            for s2, b in self.decide(o[1], o[2]):
                                nxt.append((s2, e if b else SKIP))
                elif k == "filter_map":
                    for o in self.call_value(s, fr, ad[1], [e], site):
                        if o[0] == "ret":
                            for s2, p in self.split_opt(o[1], o[2]):
                                nxt.append((s2, p if p is not None else SKIP))
                elif k == "enumerate":
                    nxt.append((s, ("tup", (("idx", self.load(s, e)) if e[0] != "mref" else ("idx", ("elem", e[2][-1][1][1], depth)) if e[2] and e[2][-1][0] == "ix" and e[2][-1][1][0] == "ei" else ("idx", e), e))))
                elif k == "flat_map":
                    for o in self.call_value(s, fr, ad[1], [e], site):
                        if o[0] == "ret":
                            nxt += self.flat(o[1], fr, o[2], depth, site)
                elif k == "flatten":
                    nxt += self.flat(s, fr, e, depth, site)
                elif k == "inspect":
                    nxt.append((s, e))
                else:
                    nxt.append((s, ("call", "ad:" + k, (e,) + tuple(ad[1:]))))
            cur = nxt
        return cur

    def flat(self, st, fr, v, depth, site):
        v = self.load(st, v) if v[0] != "mref" else v
        if v[0] == "mref":
            cv = self.load(st, v)
            ty = term_type(self.P, getattr(self, "ptypes", {}), cv)
            if cv[0] == "agg" and cv[1] == "Option" or ty and ty[0] == "adt" and ty[1] == "Option":
                return [(s, ("mref", v[1], v[2] + (("as", "Some"), ("f", "0"))) if p is not None else SKIP) for s, p in self.split_opt(st, v)]
            it = ("iter", ("itermut", v[1], v[2]), ())
            return self.expand(st, fr, it, depth + 1000000, site)
        if v[0] == "agg" and v[1] == "Option":
            return [(st, v[3][0][1] if v[2] == "Some" else SKIP)]
        if v[0] in ("iter", "iter*"):
            return self.expand(st, fr, v, depth + 1000000, site)
        ty = term_type(self.P, getattr(self, "ptypes", {}), v)
        if self.is_optionish(v) or ty and ty[0] == "adt" and ty[1] == "Option":
            return [(s, p if p is not None else SKIP) for s, p in self.split_opt(st, v)]
        return self.expand(st, fr, ("iter", v, ()), depth + 1000000, site)

    def is_optionish(self, v):
        return v[0] == "call" and v[1].startswith("Option::")

    def base_elem(self, st, fr, base, depth, site):
        k = base[0]
        if k == "rev" and base[1][0] == "itermut":
            base, k = base[1], "itermut"        # updates of separate elements: in any order
        if k == "itermut":
            v = self.read(st, base[1], base[2])
            src = self.itermut_src(v, depth)
            return [(st, ("mref", base[1], base[2] + (("ix", ("ei", src, depth)),)))]
        if k == "zip":
            if any(x[0] == "iter" and x[1][0] == "rev" and x[1][1][0] == "itermut" for x in base[1:3]):
                # counterparts of equal length, both turned round
                base = ("zip",) + tuple(x if x[0] != "iter" else ("iter", x[1][1] if x[1][0] == "rev" else ("rev", x[1]), x[2]) for x in base[1:3])
            out = []
            for s, a in self.expand(st, fr, base[1], depth, site):
                for s2, b in self.expand(s, fr, base[2], depth, site):
                    out.append((s2, SKIP if SKIP in (a, b) else ("tup", (a, b))))
            return out
        if k == "chain":
            s2 = st.fork()
            return self.expand(st, fr, base[1], depth, site) + self.expand(s2, fr, base[2], depth, site)
        if k == "once":
            return [(st, base[1])]
        if k == "arr" and len(base[1]) <= 8 and False:
            return [(st, x) for x in base[1]]
        return [(st, ("elem", base, depth))]

    def itermut_src(self, v, depth):
        if v[0] == "upd" and any(p and p[0][0] == "ix" and p[0][1][0] == "ei" and p[0][1][2] == depth for p, _ in v[2]):
            return v[1]
        return v

    # ---------- entry point
    def summarize(self, name, fix=None, tenv=None, force=False):
        """Abstract paths of root function `name`. fix: {argindex: term} overrides."""
        fn = self.P.fn(name) if isinstance(name, str) else name
        if fn is None:
            raise KeyError(name)
        st = St()
        args = []
        roots = []
        self.steps = 0
        for i in range(fn.argc):
            t = fn.locals[i + 1]
            if fix and i in fix:
                args.append(fix[i])
                continue
            if fn.kind == "closure" and i == 0:
                args.append(("clo", fn.path, tuple(self.cap_arg(st, roots, j, cp) for j, cp in enumerate(fn.caps)), ()))
                continue
            if t[0] == "ref" and t[1]:
                r = ("P", str(i))
                roots.append(r)
                st.store[r] = ("p", str(i))
                args.append(("mref", r, ()))
            else:
                args.append(("p", str(i)))
        fr = None
        res = []
        self.ptypes = {str(i): subst(fn.locals[i + 1], ("param", "Self"), (tenv or {}).get("Self", ("param", "Self"))) for i in range(fn.argc)}
        for o in self.call_fn(st, fn, args, tenv or {}, fr):
            ret = o[2] if o[0] == "ret" else None
            if ret is not None:
                ret = self.deepval(o[1], ret)
            if ret is not None and force and ret[0] == "iter":
                from models import collect
                for r in collect(self, o[1], self.root_frame(fn), ret, {"site": None, "targs": [], "tname": "", "name": ""}):
                    if len(r) == 2:
                        res.append(Path("ret", r[0], self.deepval(r[0], r[1]), roots))
                continue
            res.append(Path(o[0], o[1], ret, roots))
        return res

    def cap_arg(self, st, roots, j, cp):
        if cp[1] == "mut":
            r = ("P", "cap:" + cp[0])
            roots.append(r)
            st.store[r] = ("p", "cap:" + cp[0])
            return ("mref", r, ())
        return ("p", "cap:" + cp[0])

    def unit_value(self, st, init, v):
        """a value known to be a variant without payload is that variant"""
        if v is not None and init is not None and init[0] == "agg" and v[0] != "agg" and init[1] in self.P.adts and all(not x[2] for x in self.P.adts[init[1]]["variants"]):
            vs = st.facts.get(("is", v))
            if vs is not None and len(vs) == 1:
                for x in self.P.adts[init[1]]["variants"]:
                    if x[0] in vs and not x[2]:
                        return ("agg", init[1], x[0], ())
        return v

    def bool_paths(self, paths):
        """split boolean-valued return terms"""
        out = []
        for p in paths:
            if p.outcome != "ret" or p.ret in (T, F):
                out.append(p)
                continue
            st = St()
            st.facts = dict(p.facts)
            for s, b in self.decide(st, p.ret):
                q = Path.__new__(Path)
                q.__dict__.update(p.__dict__)
                q.facts = s.facts
                q.ret = tobool(b)
                out.append(q)
        return out


def implied_cmp(k):
    """signs known a priori: lengths, abs, squares"""
    p = poly(k)
    pos = True
    const = 0
    for m, v in p:
        if m == ():
            const = v
            continue
        if v < 0:
            pos = False
            break
        for x, e in m:
            if e % 2 == 0:
                continue
            if x[0] == "call" and x[1] in ("len", "abs", "sqrt"):
                continue
            pos = False
            break
    if pos:
        if const > 0:
            return ">"
        if const == 0:
            return "=>"
    return ALL3


def its_src(it):
    base, ads = it[1], it[2]
    return base_src(base)


def base_src(base):
    if base[0] == "zip":
        return ("zip", base_src(base[1][1]) if base[1][0] == "iter" else base[1], base_src(base[2][1]) if base[2][0] == "iter" else base[2])
    if base[0] == "chain":
        return ("chain", base_src(base[1][1]), base_src(base[2][1]))
    return base


def norm_src(src, facts, depth):
    """index loops over 0..len(v) are the same as element loops over v"""
    if src is None:
        return (("?",), facts)
    s = src
    rev = s[0] == "rev"
    r = s[1] if rev else s
    if r[0] == "itermut":
        return (r, facts)
    if r[0] == "range" and r[1] == ("c", 0) and r[2][0] == "call" and r[2][1] == "len":
        v = r[2][2][0]
        v2 = ("rev", v) if rev else v
        if not occurs(("elem", s, depth), facts):
            return (v2, facts)
    return (s, facts)


def lvname(root, path):
    return (root, tuple(path))


def diff(a, b, depth):
    """paths at which b differs from a; element-wise updates of the current loop are reported as 'own'"""
    if a == b:
        return []
    if a[0] == "iter*" and b[0] == "iter*":
        return []
    if b[0] == "upd":
        ab = a
        base = b[1]
        if a == base or (a[0] == "upd" and a[1] == base):
            out = []
            aents = dict(a[2]) if a[0] == "upd" else {}
            for p, x in b[2]:
                if any(q[0] == "ix" and q[1][0] == "ei" and q[1][2] == depth for q in p):
                    out.append("own")
                    continue
                if p in aents and aents[p] == x:
                    continue
                # cut the path at the first index with a loop-variant index
                cut = []
                for q in p:
                    if q[0] == "ix" and q[1][0] != "c":
                        break
                    cut.append(q)
                old = readpath(a, cut)
                if len(cut) == len(p):
                    for d in diff(old, x, depth):
                        out.append("own" if d == "own" else tuple(cut) + d)
                else:
                    out.append(tuple(cut))
            for p in aents:
                if p not in dict(b[2]):
                    out.append(p)
            return out
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[2] == b[2]:
        out = []
        for (f, x), (_, y) in zip(a[3], b[3]):
            for d in diff(x, y, depth):
                out.append("own" if d == "own" else (("f", f),) + d)
        return out
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        out = []
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            for d in diff(x, y, depth):
                out.append("own" if d == "own" else (("f", str(i)),) + d)
        return out
    if a[0] == "upd" and b[0] != "upd" and b == a[1]:
        return [p for p, _ in a[2]]
    return [()]


def own_paths(a, b, depth):
    out = []
    if b[0] == "upd":
        for p, x in b[2]:
            for i, q in enumerate(p):
                if q[0] == "ix" and q[1][0] == "ei" and q[1][2] == depth:
                    out.append(tuple(p[:i]))
                    break
            else:
                pre = tuple(p)
                old = readpath(a, p)
                for o in own_paths(old, x, depth):
                    out.append(pre + o)
    elif a[0] == "agg" and b[0] == "agg":
        for (f, x), (_, y) in zip(a[3], b[3]):
            if x != y:
                for o in own_paths(x, y, depth):
                    out.append((("f", f),) + o)
    return out


def find_ei(v, depth):
    if v[0] == "upd":
        for p, _ in v[2]:
            if p[0][0] == "ix" and p[0][1][0] == "ei" and p[0][1][2] == depth:
                return p[0][1]
    return None


def is_empty_coll(t):
    return t[0] == "call" and t[1] in ("Vec::new", "VecDeque::new", "emptyvec") or t == EMPTY


EMPTY = ("call", "emptyvec", ())


def sticky_fold(t, depth):
    """a loop that only ever sets its accumulator to one constant: set iff some element does so"""
    if t[0] != "fold":
        return None
    acc = ("acc", depth)
    ks = {v for _, v in t[3] if v != acc}
    if len(ks) != 1:
        return None
    K = ks.pop()
    if not (K in (T, F) or K[0] == "c" or K[0] == "agg" and not K[3]):
        return None
    hit = frozenset(f for f, v in t[3] if v == K)
    if occurs(acc, hit) or frozenset() in hit:
        return None
    if t[1] == K:
        return None
    return t[1], K, ("exists", t[2], hit)


def option_fold(t, depth):
    """found: Option<_>, looked for again in every round as long as it is None: the first hit, part by part"""
    if t[0] != "fold" or len(t) != 4 or t[1] != NONE or not isinstance(t[3], frozenset):
        return None
    acc = ("acc", depth)
    isk = ("is", acc)
    looks = []
    for fs, v in t[3]:
        w = dict(fs).get(isk)
        if v == acc and w == frozenset(["Some"]) and len(fs) == 1:
            continue
        if w != frozenset(["None"]) or len(fs) != 1 or occurs(acc, v) or v[0] != "call":
            return None
        looks.append(v)
    parts = lambda s: parts(s[1]) + parts(s[2]) if s[0] == "chain" and len(s) == 3 else [s]
    ps = parts(t[2])
    alts = []
    for src in ps:
        el = ("elem", src, depth)
        mine = [v for v in looks if occurs(el, v)] if len(ps) > 1 else looks
        if len(mine) != 1:
            return None
        hit = frozenset([frozenset([(("is", mine[0]), frozenset(["Some"]))])])
        got = subst(mine[0], el, ("find", src, hit))
        alts.append((("agg", NONE[1], "Some", (("0", project(project(got, ("as", "Some")), ("f", "0"))),)), ("exists", src, hit)))
    return (t[1], alts) if len(alts) == len(looks) else None


FOREVER = ("call", "forever", ())
STOP = ("stop",)        # a `while` loop ends here


def joint_terms(inits, rows, src, depth, stops=()):
    """final values of simultaneously updated variables.  rows: [(facts, next values)] over ("acc", depth, j);
    src is None for a loop that runs until one of `stops` applies"""
    from canon import merge_facts
    n = len(inits)
    accs = [("acc", depth, j) for j in range(n)]
    infacts = {j for j in range(n) if any(occurs(accs[j], fs) for fs in [r[0] for r in rows] + list(stops))}
    dep = [{k for k in range(n) if any(occurs(accs[k], us[j]) for _, us in rows)} for j in range(n)]
    out = []

    def project(drop, keep):
        """rows without the facts about the variables in drop, if what happens to keep does not depend on them"""
        pr = {}
        for fs, us in rows:
            k = frozenset(f for f in fs if not any(occurs(accs[q], f) for q in drop))
            v = tuple(us[q] for q in keep)
            if pr.setdefault(k, v) != v:
                return None
        items = list(pr.items())
        if len(items) > 80:
            return None
        for a in range(len(items)):
            for b in range(a):
                if items[a][1] != items[b][1] and merge_facts(items[a][0], items[b][0]) is not None:
                    return None
        return items
    for j in range(n):
        C = {j}
        while True:
            D = C | set().union(*[dep[k] for k in C])
            need = infacts - D
            for k in sorted(need) if src is not None else ():    # (a while loop's facts also say when it stops)
                if project(infacts - D - (need - {k}), sorted(D)) is not None:
                    need = need - {k}
            D |= need
            if D == C:
                break
            C = D
        drop = [k for k in range(n) if k in infacts and k not in C]
        prow = [(frozenset(f for f in fs if not any(occurs(accs[q], f) for q in drop)), us) for fs, us in list(rows) + [(fs, None) for fs in stops]]
        ks = sorted(C, key=lambda k: (key(inits[k]), key(frozenset(subst_all(us[k], accs, ("acc*",)) for _, us in rows)) if sum(1 for q in C if inits[q] == inits[k]) > 1 else "", k))
        rr = set()
        for fs, us in prow:
            vs = (fs, tuple(us[k] for k in ks) if us is not None else STOP)
            for i, k in enumerate(ks):
                vs = subst(vs, accs[k], ("acc", depth, "#%d" % i))
            for i in range(len(ks)):
                vs = subst(vs, ("acc", depth, "#%d" % i), ("acc", depth, i))
            rr.add(vs)
        s, r2 = norm_src(src, frozenset(rr), depth) if src is not None else (FOREVER, frozenset(rr))
        if src is not None and len(ks) == 1:
            a1 = ("acc", depth, 0)
            out.append(("fold", inits[j], s, frozenset((subst(fs, a1, ("acc", depth)), subst(us[0], a1, ("acc", depth))) for fs, us in r2)))
            continue
        out.append(("jf", ks.index(j), ("jfold", tuple(inits[k] for k in ks), s, r2)))
    return out


def subst_all(t, olds, new):
    for o in olds:
        t = subst(t, o, new)
    return t


def extreme_fold(t, depth):
    """best: Option<_> = None, replaced by every value that beats it: empty -> None, otherwise Some(the extreme value)"""
    if t[0] != "fold" or len(t) != 4 or t[1] != NONE or not isinstance(t[3], frozenset):
        return None
    acc = ("acc", depth)
    isk, pay = ("is", acc), ("f", ("as", acc, "Some"), "0")
    none, some_ = [], []
    for fs, v in t[3]:
        d = dict(fs)
        w = d.pop(isk, frozenset(("None", "Some")))
        if v != acc and not (v[0] == "agg" and v[2] == "Some" and len(v[3]) == 1):
            return None
        for c in w:
            if c == "None":
                if v == acc or occurs(acc, (frozenset(d.items()), v)):
                    return None
                none.append((frozenset(d.items()), v[3][0][1]))
            else:
                x = acc if v == acc else subst(v[3][0][1], pay, ("acc", -1))
                fs2 = subst(frozenset(d.items()), pay, ("acc", -1))
                if occurs(acc, fs2) or v != acc and occurs(acc, x):
                    return None
                some_.append((subst(fs2, ("acc", -1), acc), subst(x, ("acc", -1), acc)))
    if not none or not some_:
        return None
    for sign, start in ((1, "inf"), (-1, "-inf")):
        first = set()
        for fs, v in some_:
            keep = []
            for k, w in fs:
                if occurs(acc, k):
                    c = dict(poly(k[1])).get(((acc, 1),)) if k[0] == "cmp" else None
                    if c is None or sum(occurs(acc, m) for m, _ in poly(k[1])) != 1:
                        return None
                    if (">" if c * sign > 0 else "<") not in w:
                        keep = None
                        break
                else:
                    keep.append((k, w))
            if keep is not None:
                first.add((frozenset(keep), v))
        if first == set(none):
            r = ("fold", ("c", start), t[2], frozenset(some_))
            return NONE, ("agg", t[1][1], "Some", (("0", r),)), cmp(mklen(t[2]), ("c", 0), ">")
    return None


def fold_term(lv, init, src, ups, depth, lvs):
    """summary of an accumulator after exhaustion"""
    pushes, skips = [], []
    only_push = True
    if src is not None and ups and all(u[0] == "call" and u[1] == "push" and u[2][0] == lv for _, u in ups):
        # one element per round: the length so far is the number of rounds
        n = add(mklen(init), ("ei", src, depth))
        ups = [(subst(fs, ("call", "len", (lv,)), n), ("call", "push", (lv, subst(u[2][1], ("call", "len", (lv,)), n)))) for fs, u in ups]
    for fs, u in ups:
        if u == lv and not occurs(lv, fs):
            skips.append((fs, NOELEM))
            continue
        if u[0] == "call" and u[1] in ("push",) and u[2][0] == lv and not occurs(lv, u[2][1]) and not occurs(lv, fs):
            pushes.append((fs, u[2][1]))
        else:
            only_push = False
    others = [x for x in lvs if x != lv]
    if src is None:
        return None
    if only_push and pushes:
        if any(occurs(o, u) or occurs(o, fs) for o in others for fs, u in pushes):
            return None
        return mkcollect(init, src, frozenset(pushes + skips), depth)
    if any(occurs(o, u) or occurs(o, fs) for o in others for fs, u in ups):
        return None
    if src[0] == "once" and len(ups) == 1 and not ups[0][0]:
        return subst(ups[0][1], lv, init)
    acc = ("acc", depth)
    rows = frozenset((subst(fs, lv, acc), subst(u, lv, acc)) for fs, u in ups)
    s, rows = norm_src(src, rows, depth)
    return pairs_fold(("fold", init, s, rows), depth)


def pairs_fold(t, depth):
    """for i in 0..n { for j in i + 1..n { .. } }: one loop over the pairs"""
    if len(t[3]) != 1:
        return t
    (fs, v), = t[3]
    X, acc, ei = t[2], ("acc", depth), ("ei", t[2], depth)
    if fs or v[0] != "fold" or len(v) != 4 or v[1] != acc or not isinstance(v[3], frozenset):
        return t
    sl = v[2]
    e1 = ("elem", sl, depth + 1)
    if X[0] == "range" and X[1] == ("c", 0) and X[2][:2] == ("call", "len") and sl[0] == "range":
        e0, n, X = ("elem", X, depth), X[2], X[2][2][0]
        if sl[1] != add(e0, ("c", 1)) or sl[2] != n:
            return t
        firsts, second = (("elem", X, depth), ("ix", X, e0)), ("ix", X, e1)
    elif sl[0] == "slice" and sl[1] == X and sl[2] == add(ei, ("c", 1)) and sl[3] in (mklen(X), NONE):
        e0, firsts, second = ei, (("elem", X, depth),), e1
    else:
        return t
    C = ("call", "tuple_combinations", (X,))
    e = ("elem", C, depth)
    rows = subst(v[3], second, ("f", e, "1"))
    for x in firsts:
        rows = subst(rows, x, ("f", e, "0"))
    if any(occurs(x, rows) for x in (acc, e0, e1, ei, ("ei", sl, depth + 1), ("ei", X, depth))):
        return t
    return ("fold", t[1], C, subst(rows, ("acc", depth + 1), acc))


def mkcollect(init, src, rows, depth):
    s, rows = norm_src(src, rows, depth)
    # identity copy
    if init == EMPTY and len(rows) == 1:
        (fs, e), = rows
        if not fs and e == ("elem", s, depth) and s[0] not in ("range", "zip", "chain", "rev", "itermut"):
            return s
    return ("collect", init, s, rows)


def mklen(v):
    if v[0] == "arr":
        return ("c", len(v[1]))
    if v == EMPTY:
        return ("c", 0)
    if v[0] == "mapped":
        return mklen(v[1])
    if v[0] == "upd" and all(p[0][0] == "ix" for p, _ in v[2]):
        return mklen(v[1])
    if v[0] == "collect" and v[1] == EMPTY and len(v[3]) == 1 and not list(v[3])[0][0]:
        return mklen(v[2])
    if v[0] == "rev":
        return mklen(v[1])
    if v[0] == "call" and v[1] == "push" and len(v[2]) == 2:
        return add(mklen(v[2][0]), ("c", 1))
    return ("call", "len", (v,))


from models import MODELS  # noqa: E402
