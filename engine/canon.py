"""Canonical forms of summary terms: rows of (facts -> value) become reduced ordered decision diagrams,
bound elements become de Bruijn-style variables.  Two terms with the same canonical form denote the same value."""
from functools import lru_cache
from fractions import Fraction
from terms import *
from absint import implied_cmp, strip_rev, project, term_type, mklen

BOT = ("bot",)
NONNEG = []     # predicate: atoms that are never negative
NUMERIC = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}


EMPTYV = ("call", "emptyvec", ())


class Canon:
    def __init__(self, prog):
        self.P = prog
        self.byvar = {}
        for a, info in prog.adts.items():
            if info["kind"] != "enum":      # a struct may share its name with a variant
                continue
            vs = frozenset(v[0] for v in info["variants"])
            for v in vs:
                self.byvar.setdefault(v, []).append((a, vs))
        self.arrdims = {}       # field name -> fixed array dimensions, where every field of that name has them
        for a, info in prog.adts.items():
            for v in info["variants"]:
                for fl, ty, _ in v[2]:
                    ds = ()
                    while ty and ty[0] == "array":
                        ds, ty = ds + (ty[2],), ty[1]
                    self.arrdims[fl] = ds if self.arrdims.get(fl, ds) == ds else ()
        self.memo = {}
        self.nbv = 0
        self.ptypes = {}
        self.blur = {}      # function -> argument that is left out of the comparison (the state of a random generator)

    def domain(self, k, seen):
        if k[0] == "cmp":
            dom = set(implied_cmp(k[1]))
            for sg, drop in ((1, "<"), (-1, ">")):
                p = poly(k[1])
                if p and NONNEG and all(v * sg > 0 and all(NONNEG[0](x) and e > 0 for x, e in m) for m, v in p):
                    dom.discard(drop)
                    if any(m == () for m, _ in p):
                        dom.discard("=")
            return [x for x in "<=>" if x in dom]
        if k[0] == "b":
            return [True, False]
        # variants
        ty = self.typeof(k[1])
        if ty and ty[0] == "adt" and ty[1] in self.P.adts and self.P.adts[ty[1]]["kind"] == "enum":
            vs = {v[0] for v in self.P.adts[ty[1]]["variants"]}
            if seen <= vs:
                return sorted(vs)
        best = None
        for v in seen:
            for a, vs in self.byvar.get(v, []):
                if seen <= vs and (best is None or len(vs) < len(best)):
                    best = vs
        return sorted(best) if best else sorted(seen)

    def canon(self, t):
        if not isinstance(t, (tuple, frozenset)):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._canon(t)
            self.memo[t] = r
        return r

    def _canon(self, t):
        if isinstance(t, frozenset):
            return frozenset(self.canon(x) for x in t)
        if not t:
            return t
        k = t[0]
        if self.blur and k == "call" and len(t) == 3 and t[1] in self.blur:
            t = ("call", t[1], tuple(("blurred",) if i in self.blur[t[1]] else x for i, x in enumerate(t[2])))
        if self.blur and k == "mut" and len(t) == 4 and t[1] in self.blur:
            t = ("mut", t[1], t[2], tuple(("blurred",) if i in self.blur[t[1]] else x for i, x in enumerate(t[3])))
        if k in ("exists", "fold", "collect") and len(t) == (3 if k == "exists" else 4):
            src = t[1] if k == "exists" else t[2]
            if src[0] == "chain":
                return self.canon(self.split_chain(k, t, src))
            if src in (("arr", ()), EMPTYV):
                return F if k == "exists" else self.canon(t[1])
            n_ = self.nest(k, t, src)
            if n_ is not None:
                return self.canon(n_)
            if k == "collect" and t[1] != EMPTYV and isinstance(t[3], frozenset):
                return self.canon(("call", "append", (t[1], ("collect", EMPTYV, src, t[3]))))
        if k == "f" and len(t) == 3 and isinstance(t[1], tuple):
            # what the predicate of a search says about the element it found
            path, x = [t[2]], t[1]
            while x[0] == "f" and len(x) == 3:
                path.insert(0, x[2])
                x = x[1]
            x = self.canon(x) if x[0] == "find" else x
            if x[0] == "find" and len(x) == 4:
                u = ("bv", x[2])
                for n_ in path:
                    u = ("f", u, n_)
                y = implied(x[3], u, x[2])
                if y is not None:
                    return y
        if k == "call" and t[1] == "append" and len(t[2]) == 2:
            a, b = self.canon(t[2][0]), self.canon(t[2][1])
            if b in (EMPTYV, ("arr", ())):
                return a
            if a in (EMPTYV, ("arr", ())):
                return b
            if b[0] == "arr":
                for x in b[1]:
                    a = ("call", "push", (a, x))
                return self.canon(a)
            if b[0] == "call" and b[1] == "append" and len(b[2]) == 2:
                return self.canon(("call", "append", (("call", "append", (a, b[2][0])), b[2][1])))
            return ("call", "append", (a, b))
        if k == "find" and len(t) == 3 and t[1][0] == "call" and t[1][1] in ("smvalues", "smkeys"):
            s2, rows = fuse_values(t[1], t[2])
            return self.canon(("f", ("find", s2, rows), "1" if t[1][1] == "smvalues" else "0"))
        if k in ("exists", "find", "findidx", "rfindidx", "sortpos") and len(t) == 3:
            src, rows, h = self.bind(t[1], t[2], k)
            table = self.dd(self.split_mm([(f, T) for f in rows], h, src=src), F)
            if k == "exists":
                if table == F:
                    return F
                if table == T:
                    return renorm(cmp(self.canon(("call", "len", (src,))), ("c", 0), ">"))
            elif table == T and k == "find" and src[0] not in ("rev", "zip", "range"):
                return self.canon(("ix", src, ("c", 0)))
            elif table == T and k == "findidx":
                return ("c", 0)
            if k == "exists" and src[0] == "arr" and not any(isinstance(u, tuple) and u and u[0] == "eibv" for u in walk(table)):
                src = ("arr", tuple(sorted(set(src[1]), key=key)))
            return self.relevel((k, src, h, table))
        if k == "count" and len(t) == 3 or k == "sumf" and len(t) == 3:
            src, rows, h = self.bind(t[1], t[2], "exists" if k == "count" else "collect")
            acc = ("accv", h)
            rows = [(f, add(acc, ("c", 1))) for f in rows] if k == "count" else [(f, add(acc, x)) for f, x in rows]
            return self.addfold(self.relevel(("fold", ("c", 0), src, h, self.dd(self.split_mm(rows, h, src=src), acc))))
        if k == "fold" and len(t) == 4 and isinstance(t[3], frozenset) and len(t[3]) == 1 and not list(t[3])[0][0]:
            xs = list(enumerate(t[2][1])) if t[2][0] == "arr" and len(t[2][1]) == 1 else [(i, ("c", i)) for i in range(t[2][1][1], t[2][2][1])] if t[2][0] == "range" and all(x[0] == "c" and isinstance(x[1], int) for x in t[2][1:3]) and 0 < t[2][2][1] - t[2][1][1] <= 4 else None
            d = own_depth(t[2], t[3])
            body = list(t[3])[0][1]
            accs = {u for u in walk(body) if isinstance(u, tuple) and len(u) == 2 and u[0] == "acc"}
            if d is not None:
                accs = {("acc", d)} & accs
            if xs and len(accs) <= 1 and (len(xs) == 1 or d is not None):
                v = t[1]
                for i, e in xs:
                    x = substfree(body, lambda u: None if u[1] != t[2] or u[2] != d else e if u[0] == "elem" else ("c", i), {})
                    for u in accs:
                        x = subst(x, u, v)
                    v = self.canon(x)
                return v
        if k == "fold" and len(t) == 4 and isinstance(t[3], frozenset):
            m_ = inplace_map(t)
            if m_ is not None:
                return self.canon(m_)
        if k == "tup" and len(t) == 2 and len(t[1]) > 1 and all(x[0] == "f" and len(x) == 3 and x[2] == str(i) and x[1] == t[1][0][1] for i, x in enumerate(t[1])):
            return self.canon(t[1][0][1])
        if k == "arr":
            t = ("arr", tuple(self.canon(x) for x in t[1]))
        if k == "arr" and len(t[1]) > 1 and all(x[0] == "ix" and x[1] == t[1][0][1] and x[2] == ("c", i) for i, x in enumerate(t[1])):
            b_, n_ = t[1][0][1], 0
            while b_[0] == "ix":
                b_, n_ = b_[1], n_ + 1
            if b_[0] == "f" and self.arrdims.get(b_[2], ())[n_:n_ + 1] == (len(t[1]),):
                return t[1][0][1]
        if k == "arr" and t[1] == ():
            return ("call", "emptyvec", ())
        if k == "collect" and len(t) == 4 and isinstance(t[3], frozenset) and len(t[3]) == 1 and t[1] in (("call", "emptyvec", ()), ("arr", ())):
            (fs_, x_), = t[3]
            if not fs_ and x_[0] == "elem" and x_[1] == t[2] and t[2][0] not in ("range", "zip", "chain", "rev", "itermut"):
                return self.canon(t[2])
        if k in ("fold", "collect") and len(t) == 4:
            src, rows, h = self.bind(t[2], t[3], k)
            if k == "fold":
                rows = subst_accs(rows, h)
            init = self.canon(t[1])
            if k == "fold" and init[0] == "c" and not isinstance(init[1], str) and abs(init[1]) in BIG:
                init = ("c", "inf" if init[1] > 0 else "-inf")
            if k == "fold":
                lay = ("f", ("f", ("accv", h), "layout"), "bin")
                if rows and all(keeps_bin(x, ("accv", h)) for _, x in rows) and lay in walk(rows):
                    rows = subst(rows, lay, ("f", ("f", init, "layout"), "bin"))
            return self.addfold(self.relevel((k, init, src, h, self.dd(self.split_mm(rows, h, src=src), BOT))))
        if k == "mapped" and len(t) == 3:
            src, rows, h = self.bind(t[1], t[2])
            return self.relevel(("collect", ("call", "emptyvec", ()), src, h, self.dd(self.split_mm(rows, h, src=src), BOT)))
        if k == "jf" and len(t) == 3 and t[2][0] == "jfold" and len(t[2]) == 4:
            return ("jf", self.joint_order(t[2][1])[1].index(t[1]), self.canon(t[2]))
        if k == "jfold" and len(t) == 4:
            ini, perm = self.joint_order(t[1])
            src, rows, h = self.bind(t[2], t[3])
            rows = subst_accs(rows, h)
            if perm != list(range(len(perm))):
                for o, i in enumerate(perm):
                    rows = subst(rows, ("accv", h, i), ("accv", h, ("p", o)))
                for o in range(len(perm)):
                    rows = subst(rows, ("accv", h, ("p", o)), ("accv", h, o))
                rows = frozenset((fs, us if us == ("stop",) else tuple(us[i] for i in perm)) for fs, us in rows)
            return self.relevel((k, tuple(ini[i] for i in perm), src, h, self.dd(self.split_mm(rows, h, src=src), BOT)))
        if k == "mut" and len(t) == 4 and isinstance(t[1], str) and t[1].endswith("as TransformableFrom>::transform_from") and len(t[3]) == 3:
            return self.canon(("mut", t[1].replace("TransformableFrom>::transform_from", "Transformable>::transform"), 0, t[3][1:]))
        if k == "iter" and len(t) == 3 and t[2] == ():
            return self.canon(t[1])
        if k == "clo":
            return ("clo", t[1], tuple(self.canon(x) for x in t[2]), ())
        if k in ("and", "or") and all(isinstance(x, tuple) for x in t[1:]):
            xs = {self.canon(x) for x in t[1:]}
            unit, zero = (T, F) if k == "and" else (F, T)
            if zero in xs:
                return zero
            xs.discard(unit)
            if not xs:
                return unit
            if len(xs) == 1:
                return xs.pop()
            return (k,) + tuple(sorted(xs, key=key))
        if k == "not":
            return not_(self.canon(t[1]))
        if k == "eq" and len(t) == 3:
            if any(ty and ty[0] == "o" and ty[1] in NUMERIC for ty in (self.typeof(t[1]), self.typeof(t[2]))):
                return self.canon(cmp(t[1], t[2], "="))
            return ("eq",) + tuple(sorted((self.canon(t[1]), self.canon(t[2])), key=key))
        if k == "upd" and len(t) == 3 and t[2] and all(p and p[0][0] == "f" for p, _ in t[2]):
            ty = self.typeof(t[1])
            if ty and ty[0] == "adt" and ty[1] in self.P.adts and self.P.adts[ty[1]]["kind"] == "struct":
                fs = []
                for f in self.P.adts[ty[1]]["variants"][0][2]:
                    whole = [v for p, v in t[2] if p == (("f", f[0]),)]
                    part = tuple((p[1:], v) for p, v in t[2] if p[0] == ("f", f[0]) and len(p) > 1)
                    b = ("f", t[1], f[0])
                    fs.append((f[0], self.canon(whole[0] if whole else ("upd", b, part) if part else b)))
                return ("agg", ty[1], self.P.adts[ty[1]]["variants"][0][0], tuple(fs))
        if k == "upd" and len(t) == 3 and len(t[2]) == 1 and len(t[2][0][0]) == 1 and t[2][0][0][0][0] == "ix" and t[2][0][1] == ("ix", t[1], t[2][0][0][0][1]):
            return self.canon(t[1])         # a[i] = a[i]
        if k == "upd" and len(t) == 3:
            whole = self.every_cell(t)
            if whole is not None:
                return self.canon(whole)
        if k == "upd" and len(t) == 3 and t[1][:2] == ("call", "Box::new_uninit") and len(t[2]) == 1 and t[2][0][0] == (("f", "value"), ("f", "value")):
            return self.canon(t[2][0][1])
        if k == "upd" and len(t) == 3 and t[2] and t[2][0][0][0][0] == "ix" and all(p[0] == t[2][0][0][0] and len(p) > 1 for p, _ in t[2]):
            i = t[2][0][0][0]
            return self.canon(("upd", t[1], (((i,), ("upd", ("ix", t[1], i[1]), tuple((p[1:], v) for p, v in t[2]))),)))
        if k == "upd" and len(t) == 3 and t[2] and all(p[0] == ("as", "Some") and len(p) > 1 and p[1] == ("f", "0") for p, _ in t[2]):
            inner = ("f", ("as", t[1], "Some"), "0")
            if len(t[2]) == 1 and len(t[2][0][0]) == 2:
                inner = t[2][0][1]
            else:
                inner = ("upd", inner, tuple((p[2:], v) for p, v in t[2]))
            return ("agg", "Option", "Some", (("0", self.canon(inner)),))
        if k == "ix" and len(t) == 3 and t[2][0] == "c" and t[1][0] == "upd" and len(t[1]) == 3 and all(p[0][0] == "ix" and p[0][1][0] == "c" and p[0][1] != t[2] for p, _ in t[1][2]):
            return self.canon(("ix", t[1][1], t[2]))
        if k == "ix" and len(t) == 3 and t[2][0] == "c" and isinstance(t[2][1], int):
            b_ = self.canon(t[1])
            if b_[0] == "arr" and 0 <= t[2][1] < len(b_[1]):
                return b_[1][t[2][1]]
        if k == "call" and t[1] == "pop" and len(t) == 3 and len(t[2]) == 1:
            x = t[2][0]
            if x[0] in ("collect", "mapped") and (x[0] == "mapped" or x[1] == EMPTYV) and len(x[-1]) == 1 and not list(x[-1])[0][0] and x[-2][0] in ("f", "p"):
                old, new = x[-2], ("slice", x[-2], ("c", 0), sub(mklen(x[-2]), ("c", 1)))      # without the last element
                return self.canon(("collect", EMPTYV, new, subst_elems(x[-1], old, new)))
        if k == "ix" and len(t) == 3 and t[2] == ("c", 0) and t[1][0] == "slice" and t[1][2] == ("c", 0):
            return self.canon(("ix", t[1][1], t[2]))
        if k == "call" and t[1] == "len" and t[2] and t[2][0][:2] == ("call", "append"):
            return self.canon(add(("call", "len", (t[2][0][2][0],)), ("call", "len", (t[2][0][2][1],))))
        if k == "call" and t[1] == "len" and t[2] and t[2][0][0] in ("f", "p"):
            ty = self.typeof(t[2][0])
            if ty and ty[0] == "array" and isinstance(ty[2], int):
                return ("c", ty[2])
        if k == "call" and t[1] == "len" and t[2] and t[2][0][0] == "arr":
            return ("c", len(t[2][0][1]))
        if k == "call" and t[1] == "AlmostEqual::almost_equals" and len(t[2]) == 2:
            # symmetric in its arguments
            a, b = (self.canon(x) for x in t[2])
            return ("call", t[1], (a, b) if key(a) <= key(b) else (b, a))
        if k == "call" and t[1] == "abs" and len(t) == 3 and len(t[2]) == 1:
            q = poly(t[2][0])
            if q and q[0][1] < 0:
                return ("call", "abs", (neg(t[2][0]),))
        if k == "call" and t[1] == "reverse" and len(t[2]) == 1:
            return self.canon(("rev", t[2][0]))
        if k == "call" and t[1] == "len" and t[2] and t[2][0][0] == "slice" and len(t[2][0]) == 4:
            return self.canon(sub(t[2][0][3], t[2][0][2]))
        if k == "ix" and len(t) == 3 and t[1][0] == "upd":
            p = project(t[1], ("ix", t[2]))
            if p != t and p[0] != "sel":
                return self.canon(p)
        if k == "f" and len(t) == 3 and isinstance(t[2], str):
            b = self.canon(t[1])
            p = project(b, ("f", t[2]))
            return p if p == ("f", b, t[2]) else self.canon(p)
        if k == "as" and len(t) == 3 and isinstance(t[2], str):
            b = self.canon(t[1])
            return project(b, ("as", t[2]))
        if k == "upd" and len(t) == 3 and t[1][0] in ("arr", "upd") and all(p and p[0][0] == "ix" and p[0][1][0] == "c" and isinstance(p[0][1][1], int) for p, _ in t[2]):
            b_ = self.canon(t[1])
            if b_[0] == "arr" and all(0 <= p[0][1][1] < len(b_[1]) for p, _ in t[2]):
                xs_ = list(b_[1])
                for p, v in t[2]:
                    j = p[0][1][1]
                    xs_[j] = self.canon(v if len(p) == 1 else ("upd", xs_[j], ((p[1:], v),)))
                return self.canon(("arr", tuple(xs_)))
        if k == "call" and t[1] == "insert" and len(t) == 3 and len(t[2]) == 3 and t[2][0][:2] == ("call", "remove") and t[2][0][2][1] == t[2][1]:
            return self.canon(("upd", t[2][0][2][0], (((("ix", t[2][1]),), t[2][2]),)))
        if k == "call" and t[1] in ("remove", "swap_remove") and len(t) == 3 and len(t[2]) == 2 and t[2][0][0] == "upd" and all(p[0] == ("ix", t[2][1]) for p, _ in t[2][0][2]):
            return self.canon(("call", t[1], (t[2][0][1], t[2][1])))
        r = tuple(self.canon(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
        return renorm(r) if r != t else t

    def split_chain(self, k, t, src):
        """a loop over a.chain(b) is a loop over a followed by a loop over b"""
        rows = t[-1]
        parts = []
        flat = []

        def fl(x):
            if x[0] == "chain":
                fl(x[1])
                fl(x[2])
            else:
                flat.append(x)
        fl(src)
        acc = t[1]
        ex = []
        for i, x in enumerate(flat):
            rows_x = rows
            for u in list(walk(rows)):
                if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] == src:
                    rows_x = subst(rows_x, u, (u[0], x, u[2]))
            sub_ = frozenset(r for r in rows_x if self.mentions(r, x) or not any(self.mentions(r, y) for y in flat))
            if k == "exists":
                ex.append(("exists", x, sub_))
            elif k == "fold":
                acc = ("fold", acc, x, sub_)
            else:
                acc = ("collect", acc, x, sub_)
        if k == "exists":
            return ("or",) + tuple(ex)
        return acc

    def mentions(self, r, src):
        return any(isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] == src for u in walk(r))

    def typeof(self, t):
        return term_type(self.P, self.ptypes, t)

    def every_cell(self, t):
        """a[0] = g(a[0]); .. a[n-1] = g(a[n-1]) on an array of n elements is the loop over the array"""
        cells = {}
        x = t
        while x[0] == "upd" and len(x) == 3:
            for p, v in x[2]:
                if len(p) != 1 or p[0][0] != "ix" or p[0][1][0] != "c" or p[0][1][1] in cells:
                    return None
                cells[p[0][1][1]] = v
            x = x[1]
        n = len(cells)
        if n < 2 or set(cells) != set(range(n)):
            return None
        ty = self.typeof(x)
        while ty and ty[0] == "adt" and ty[1] == "Box" and ty[2]:
            ty = ty[2][0]
        if not ty or ty[0] != "array" or ty[2] != n:
            return None
        x = self.canon(x)
        cells = {i: self.canon(v) for i, v in cells.items()}
        d = 1 + max((u[2] for u in walk(t) if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and isinstance(u[2], int)), default=-1)
        el = ("elem", x, d)
        gen = {subst(v, ("ix", x, ("c", i)), el) for i, v in cells.items()}
        if len(gen) != 1 or el not in walk(list(gen)[0]):
            return None
        return ("collect", EMPTYV, x, frozenset([(frozenset(), gen.pop())]))

    def range_to_array(self, src, rows):
        """for i in 0..N over an array of N elements, used only to index it -> the array itself"""
        if src[0] == "range" and not (src[1] == ("c", 0) and (src[2][0] == "c" or src[2][:2] == ("call", "len"))):
            return range_to_slice(src, rows)
        if src[0] != "range":
            return src, rows
        n = src[2][1]
        arrs = {src[2][2][0]} if src[2][:2] == ("call", "len") else set()
        for u in walk(rows):
            if isinstance(u, tuple) and len(u) == 3 and u[0] == "ix" and isinstance(u[2], tuple) and u[2][0] in ("elem", "ei") and u[2][1] == src:
                t = self.typeof(u[1])
                if src[2][0] == "c" and t and t[0] == "array" and t[2] == n:
                    arrs.add(u[1])
        if not arrs:
            return range_to_slice(src, rows)
        if len(arrs) != 1:
            return src, rows
        a = arrs.pop()
        for u in list(walk(rows)):
            if isinstance(u, tuple) and len(u) == 3 and u[0] == "ix" and u[1] == a and isinstance(u[2], tuple) and u[2][0] in ("elem", "ei") and u[2][1] == src:
                rows = subst(rows, u, ("elem", a, u[2][2]))
        for u in list(walk(rows)):
            if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] == src:
                rows = subst(rows, u, ("ei", a, u[2]))
        return a, rows

    def bind(self, src, rows, kind=None):
        """canonicalise rows, replacing the bound element by ('bv', h)"""
        src, rows = self.range_to_array(src, rows)
        if src[0] == "slice" and len(src) == 4 and src[2] == ("c", 0):
            ty = self.typeof(src[1])
            if ty and ty[0] == "array" and src[3] == ("c", ty[2]) or src[3] == ("call", "len", (src[1],)):
                rows = subst_elems(rows, src, src[1])
                src = src[1]
        if src[0] in ("collect", "mapped"):
            csrc = self.canon(src)
            for u in list(walk(rows)):
                if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] != src and isinstance(u[1], tuple) and u[1][0] in ("collect", "mapped", "itermut") and self.canon(u[1]) == csrc:
                    rows = subst(rows, u, (u[0], src, u[2]))
        src, rows = fuse_map(src, rows, kind)
        csrc = self.canon(src)
        for u in list(walk(rows)):
            if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] != src and isinstance(u[1], tuple) and self.canon(u[1]) == csrc:
                rows = subst(rows, u, (u[0], src, u[2]))
        self.nbv += 1
        base = ("BV", self.nbv)
        d = own_depth(src, rows)
        if d is not None and src[0] not in ("range", "rev", "zip", "chain"):
            e, i = ("elem", src, d), ("ei", src, d)
            rows = subst(rows, ("idx", e), i)
            for u in list(walk(rows)):
                if isinstance(u, tuple) and len(u) == 3 and u[0] == "ix" and u[2] == i and u[1][0] not in ("upd", "acc"):
                    rows = subst(rows, u, ("elem", u[1], d))
        r2 = rows
        if d is not None:
            ty = self.typeof(("elem", src, 0))
            if ty is not None:
                self.ptypes[base] = ty
            r2 = substfree(rows, lambda u: (u[0], srckey(u[1], src), base) if u[2] == d else None, {})
        r3 = self.canon(r2)
        hs = [u[1] for u in walk(r3) if isinstance(u, tuple) and len(u) == 2 and u[0] == "bv" and isinstance(u[1], int)]
        h = 1 + max(hs, default=0)
        for u in list(walk(r3)):
            if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[2] == base:
                r3 = subst(r3, u, (u[0] + "bv", u[1], ("bv", h)) if u[1] != ("self",) or u[0] == "ei" else ("bv", h))
        csrc = self.canon(src)
        if csrc[:2] == ("call", "chunks") and len(csrc[2]) == 2 and csrc[2][1] == ("c", 2) and kind != "exists":
            r3 = pair_len(r3, ("call", "len", (("bv", h),)))
        return csrc, r3, h

    def nest(self, k, t, src):
        """a loop over flattened elements (elem(X, d+1000000)) is a loop over X inside the loop over src"""
        rows = t[2] if k == "exists" else t[3]
        if not isinstance(rows, frozenset):
            return None
        d = own_depth(src, rows)
        if d is None:
            ds = {u[2] - 1000000 for u in freeel(rows) if u[2] >= 1000000}
            d = ds.pop() if len(ds) == 1 else None
        if d is None:
            return None
        if not any(u[2] == d + 1000000 and u[1] != src for u in freeel(rows)):
            return None

        def has(x):
            return any(u[2] == d + 1000000 for u in freeel(x))
        groups = {}
        for r in rows:
            fs, leaf = (r, None) if k == "exists" else r
            outer = frozenset(f for f in fs if not has(f))
            ins = frozenset(f for f in fs if has(f))
            groups.setdefault(outer, []).append((ins, leaf))
        out = set()
        acc = ("acc", d)
        for outer, lst in groups.items():
            xs = {u[1] for u in freeel(frozenset(lst)) if u[2] == d + 1000000}
            if len(xs) > 1:
                return None
            if not xs:
                if k == "exists":
                    out |= {outer}
                elif len(lst) == 1:
                    x = lst[0][1]
                    out.add((outer, acc if k == "collect" and x == NOELEM else ("call", "push", (acc, x)) if k == "collect" else x))
                else:
                    return None
                continue
            X = xs.pop()
            if k == "exists":
                out.add(outer | {(("b", ("exists", X, frozenset(i for i, _ in lst))), True)})
            elif k == "collect":
                out.add((outer, ("collect", acc, X, frozenset(lst))))
            else:
                out.add((outer, ("fold", acc, X, frozenset((subst(i, acc, ("acc", d + 1000000)), subst(l, acc, ("acc", d + 1000000))) for i, l in lst))))
        return ("exists", src, frozenset(out)) if k == "exists" else ("fold", t[1], src, frozenset(out))

    def wraps(self, u, h, src):
        """(i + 1) % n, (i - 1) mod n, (i + n - 1) % n for an index i < n: the two cases"""
        n = u[3]
        if n != (self.canon(src[2]) if src[0] == "range" and src[1] == ("c", 0) else self.canon(("call", "len", (src,)))):
            return None
        idx = [m[0][0] for m, x in poly(u[2]) if len(m) == 1 and m[0][1] == 1 and x == 1 and (m[0][0] == ("bv", h) or m[0][0][0] == "eibv" and m[0][0][-1] == ("bv", h))]
        if len(idx) != 1:
            return None
        i = idx[0]
        off = sub(u[2], i)
        if off == ("c", 1):
            return [(("c", 0), [cmp(u[2], n, "=")]), (u[2], [cmp(u[2], n, "<>")])]
        if off == ("c", -1) and u[1] == "RemE" or off == sub(n, ("c", 1)):
            return [(sub(n, ("c", 1)), [cmp(i, ("c", 0), "=")]), (sub(i, ("c", 1)), [cmp(i, ("c", 0), "<>")])]
        return None

    def split_mm(self, rows, h, depth=0, src=None):
        """case split on min/max/abs of the bound element or accumulator, so that `min` and a comparison agree"""
        out = []
        for f, leaf in rows:
            best = None
            for u in walk((tuple(f), leaf)):
                if src is not None and isinstance(u, tuple) and len(u) == 4 and u[0] == "op" and u[1] in ("Rem", "RemE") and self.wraps(u, h, src):
                    best = u
                    break
                if not (isinstance(u, tuple) and (len(u) == 2 and u[0] in ("min", "max") and isinstance(u[1], tuple) and 2 <= len(u[1]) <= 3
                                                  or len(u) == 3 and u[0] == "call" and u[1] == "abs")):
                    continue
                lv = [w[1] for w in walk(u) if isinstance(w, tuple) and len(w) == 2 and w[0] in ("bv", "accv")]
                if lv and h in lv and all(isinstance(x, int) and x >= h for x in lv) and (best is None or tsize(u) < tsize(best)):
                    best = u
            if best is None or depth >= 4:
                out.append((f, leaf))
                continue
            if best[0] == "op":
                alts = self.wraps(best, h, src)
            elif best[0] == "call":
                x = best[2][0]
                alts = [(x, [cmp(x, ("c", 0), "=>")]), (neg(x), [cmp(x, ("c", 0), "<")])]
            else:
                lo = best[0] == "min"
                alts = [(x, [cmp(x, y, ("<" if i > j else "<=") if lo else (">" if i > j else "=>")) for j, y in enumerate(best[1]) if j != i]) for i, x in enumerate(best[1])]
            for x, conds in alts:
                d = dict()
                ok = True
                fs = [(k, v) for k, v in f]
                for k, v in fs + [(c, None) for c in conds]:
                    if v is not None:
                        k = self.canon(subst(k, best, x))
                        if k[0] != "cmp":
                            d[k] = v
                            continue
                        k = cmp(k[1], ("c", 0), v) if isinstance(k[1], tuple) else k
                    if k == T:
                        continue
                    if k == F:
                        ok = False
                        break
                    kk, vv = ("cmp", k[1]), "".join(sorted(k[2]))
                    vv = "".join(c for c in d.get(kk, vv) if c in vv)
                    if not vv:
                        ok = False
                        break
                    d[kk] = vv
                if ok:
                    out += self.split_mm([(frozenset(d.items()), self.canon(subst(leaf, best, x)))], h, depth + 1, src)
        return out

    def dd(self, rows, default):
        """rows: [(frozenset of (factkey, value), leaf)] -> reduced decision diagram"""
        dom = {}
        rs = []
        for f, leaf in rows:
            d = {}
            for k, v in f:
                if k[0] == "exh":
                    continue
                if k[0] == "b" and isinstance(k[1], tuple) and k[1] in (T, F):
                    if (k[1] == T) != v:
                        d = None
                        break
                    continue
                if k[0] == "is" and isinstance(k[1], tuple) and k[1] and k[1][0] == "agg":
                    if k[1][2] not in v:
                        d = None
                        break
                    continue
                if k[0] == "cmp" and isinstance(k[1], tuple) and k[1][0] in ("c", "n") and not isinstance(k[1][1], str):
                    p = poly(k[1])
                    if not p or len(p) == 1 and p[0][0] == ():
                        x = p[0][1] if p else 0
                        if ("<" if x < 0 else "=" if x == 0 else ">") not in v:
                            d = None
                            break
                        continue
                    c = cmp(k[1], ("c", 0), v)
                    if c == T:
                        continue
                    if c == F:
                        d = None
                        break
                    k, v = ("cmp", c[1]), "".join(x for x in c[2] if x in d.get(("cmp", c[1]), c[2]))
                    if not v:
                        d = None
                        break
                d[k] = v
            if d is None:
                continue
            for k, v in d.items():
                if k[0] == "is" and v == frozenset(("None",)) and occurs(k[1], leaf):
                    leaf = subst(leaf, k[1], ("agg", "Option", "None", ()))
            if d and isinstance(leaf, tuple):
                ats = {u[1] for u in walk(leaf) if isinstance(u, tuple) and len(u) == 3 and u[0] == "dd"}
                if ats & set(d):
                    leaf = self.assume(leaf, d)
            rs.append((d, leaf))
            for k, v in d.items():
                s = dom.setdefault(k, set())
                if k[0] == "cmp":
                    s.update(v)
                elif k[0] == "is":
                    s.update(v)
                else:
                    s.add(v)
        for a in [a for a in dom if a[0] == "cmp" and int_poly(a[1]) and all(d.get(a, ">") in (">", "<=") for d, _ in rs)]:
            if len(poly(a[1])) == 1:
                continue
            a2 = ("cmp", sub(a[1], ("c", 1)))        # n > 9 and n >= 10 are the same test
            if a2[1][0] != "n":
                continue
            rs2 = []
            for d, l in rs:
                if a in d:
                    d = dict(d)
                    v = "=>" if d.pop(a) == ">" else "<"
                    v = "".join(x for x in v if x in d.get(a2, "<=>"))
                    if not v:
                        continue
                    d[a2] = v
                rs2.append((d, l))
            rs = rs2
            del dom[a]
            dom[a2] = {x for d, _ in rs for x in d.get(a2, ())}
        atoms = sorted(dom, key=lambda a: (tsize(a), key(a)))
        doms = {k: self.domain(k, dom[k]) for k in atoms}
        if len(atoms) > 26:
            return ("rows", frozenset((frozenset(d.items()), l) for d, l in rs))
        memo = {}

        def build(i, rs):
            if not rs:
                return default
            if all(not (set(d) & set(atoms[i:])) for d, _ in rs):
                leaves = {l for _, l in rs}
                if len(leaves) == 1:
                    return leaves.pop()
                if default == F:
                    return T
                return ("choice", frozenset(leaves))
            mk = (i, tuple(sorted((key((tuple(sorted(((a, b) for a, b in d.items() if a in atoms[i:]), key=key)), l)) for d, l in rs))))
            if mk in memo:
                return memo[mk]
            a = atoms[i]
            kids = []
            for v in doms[a]:
                sub_ = []
                for d, l in rs:
                    w = d.get(a)
                    if w is None or (w == v if a[0] == "b" else v in w):
                        sub_.append((d, l))
                kid = build(i + 1, sub_)
                if a[0] == "is" and a[1][0] != "agg" and occurs(a[1], kid):
                    if v == "None" and "Some" in doms[a]:
                        kid = leafsub(kid, a[1])
                    elif self.unitval(v, doms[a]) is not None and a[1] == kid:
                        kid = self.unitval(v, doms[a])
                kids.append((v, kid))
            if a[0] == "cmp":
                kids = self.eq_branch(a, kids)
            vals = {x for _, x in kids}
            eta = None
            if a[0] == "is" and len(vals) == 2 and {v for v, _ in kids} == {"None", "Some"}:
                dk = dict(kids)
                eta = subst(dk["Some"], ("agg", "Option", "Some", (("0", ("f", ("as", a[1], "Some"), "0")),)), a[1])
                if leafsub(dk["Some"], a[1]) == dk["None"]:
                    eta = dk["Some"]
                elif eta == dk["Some"] or subst(eta, a[1], ("agg", "Option", "None", ())) != dk["None"]:
                    eta = None
            if a[0] == "is" and len(vals) > 1 and all(k_ == self.unitval(v, doms[a]) for v, k_ in kids):
                eta = a[1]
            if len(vals) == 1:
                r = vals.pop()
            elif eta is not None:
                r = eta
            else:
                r = ("dd", a, tuple(kids))
            memo[mk] = r
            return r
        return build(0, rs)


    def unitval(self, v, dom):
        """the value of a variant without payload"""
        for a, vs in self.byvar.get(v, []):
            if set(dom) == set(vs) and a in self.P.adts:
                for x in self.P.adts[a]["variants"]:
                    if x[0] == v:
                        return ("agg", a, v, ()) if not x[2] else None
        return None

    def eq_branch(self, a, kids):
        """where the compared values are equal, either name may be used: the '=' leaf is rewritten to a neighbour it equals"""
        d = dict(kids)
        e = d.get("=")
        if e is None or e in (T, F, BOT) or e == d.get("<") or not isinstance(a[1], tuple) or a[1][0] == "c":
            return kids
        def stored(t):
            # a[i] = x where x is what a[i] holds
            for u in [u for u in walk(t) if isinstance(u, tuple) and len(u) == 3 and u[0] == "upd" and len(u[2]) == 1 and len(u[2][0][0]) == 1 and u[2][0][0][0][0] == "ix"]:
                df = sub(u[2][0][1], ("ix", u[1], u[2][0][0][0][1]))
                if df in (a[1], neg(a[1])):
                    t = subst(t, u, u[1])
            return t
        for o in ("<", ">"):
            if o in d and d[o] != BOT and d[o] != e and stored(e) == stored(d[o]):
                return [(v, d[o] if v == "=" else k) for v, k in kids]
        for m, x in poly(a[1]):
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] not in ("c",):
                at = m[0][0]
                val = sub(at, mul(a[1], frac(1 / Fraction(x))))
                if occurs(at, val):
                    continue
                for o in ("<", ">"):
                    if o in d and d[o] != BOT and self.canon(subst(e, at, val)) == self.canon(subst(d[o], at, val)):
                        return [(v, d[o] if v == "=" else k) for v, k in kids]
        return kids

    def known(self, t, facts):
        """writes [] and None for the collections and options the branch facts say are empty (t is canonical)"""
        em = empties_of(facts)
        for x in em:
            if occurs(x, t):
                t = self.drop_empty(t, em)
                break
        for x in sorted(em, key=tsize):
            if occurs(x, t):
                t = subst(subst(t, ("call", "len", (x,)), ("c", 0)), x, ("call", "emptyvec", ()))
        for k, v in facts.items():
            if k[0] == "is" and v == frozenset(("None",)) and k[1][0] != "agg" and occurs(k[1], t) and not any(isinstance(u, tuple) and u and u[0] == 'dd' and occurs(k[1], u[1]) for u in walk(t)):
                t = subst(t, k[1], ("agg", "Option", "None", ()))
        return t

    def joint_order(self, inits):
        ini = tuple(self.canon(x) for x in inits)
        return ini, sorted(range(len(ini)), key=lambda i: (key(ini[i]), i))

    def drop_empty(self, t, empties):
        """rewrites quantifiers and loops over collections known to be empty (t is canonical)"""
        if not isinstance(t, (tuple, frozenset)):
            return t
        if not any(u in empties for u in walk(t) if isinstance(u, tuple)):
            return t
        if isinstance(t, frozenset):
            return frozenset(self.drop_empty(x, empties) for x in t)
        k = t[0] if t else None
        if k == "exists" and t[1] in empties:
            return F
        if k in ("fold", "collect") and t[2] in empties:
            return self.drop_empty(t[1], empties)
        if k == "dd":
            a = t[1]
            a2 = self.drop_empty(a, empties)
            if a2[0] == "b" and a2[1] in (T, F):
                return self.drop_empty(dict(t[2])[a2[1] == T], empties)
            if a2[0] == "b" and a2[1][0] == "not":
                pass
        r = tuple(self.drop_empty(x, empties) for x in t)
        if k in ("exists", "find", "findidx") and len(r) == 4 and r[3] == T:
            if k == "exists":
                return renorm(cmp(self.canon(("call", "len", (r[1],))), ("c", 0), ">"))
            return self.canon(("ix", r[1], ("c", 0))) if k == "find" else ("c", 0)
        if k == "exists" and len(r) == 4 and r[3] == F:
            return F
        return renorm(r) if r != t else t


    def assume(self, t, facts):
        """resolves the decisions of a canonical term that the branch facts settle"""
        ds = {u for u in walk(t) if isinstance(u, tuple) and len(u) == 3 and u[0] == "dd" and u[1] in facts}
        if not ds:
            return t
        memo = {}

        def go(x):
            if not isinstance(x, (tuple, frozenset)):
                return x
            if x in memo:
                return memo[x]
            if isinstance(x, frozenset):
                r = frozenset(go(y) for y in x)
            elif len(x) == 3 and x[0] == "dd" and x[1] in facts:
                v = facts[x[1]]
                ok = (lambda b: b == v) if x[1][0] == "b" else (lambda b: b in v)
                subs = {go(y) for b, y in x[2] if ok(b)}
                r = subs.pop() if len(subs) == 1 else ("dd", x[1], tuple((b, go(y)) for b, y in x[2]))
            else:
                r = tuple(go(y) for y in x)
                r = renorm(r) if r != x else x
            memo[x] = r
            return r
        r = go(t)
        return self.rebind(r) if r != t else r

    def addfold(self, r):
        """a sum that starts at a constant or adds a constant per element: keep only the varying part in the loop"""
        if r[0] != "fold" or len(r) != 5:
            return r
        _, init, src, h, body = r
        acc = ("accv", h)
        if body[0] != "n" or not is_num(init):
            return r
        p = dict(body[1])
        c = p.pop((), 0)
        if p.pop(((acc, 1),), None) != 1 or not p or any(acc in list(walk(m)) for m in p) or c == 0 and init == ("c", 0):
            return r
        n = ("c", 0) if c == 0 else self.canon(("call", "len", (src,)))
        if n[0] != "c":
            n, keep = ("c", 0), c
        else:
            keep = 0
        if keep and init == ("c", 0):
            return r
        rest = frompoly(tuple((m, v) for m, v in body[1] if m != () or keep))
        return add(("fold", ("c", 0), src, h, rest), add(init, frac(Fraction(c - keep) * n[1])))

    def relevel(self, r):
        if not (r and len(r) > 3 and r[0] in ("exists", "find", "findidx", "rfindidx", "sortpos", "fold", "collect", "jfold") and isinstance(r[-2], int)):
            return r
        r = aligned(r)
        old = r[-2]
        body = r[-1]
        hs = [u[1] for u in walk(body) if isinstance(u, tuple) and len(u) == 2 and u[0] == "bv" and isinstance(u[1], int) and u[1] < old]
        n = 1 + max(hs, default=0)
        if n != old:
            body = subst(body, ("bv", old), ("bv", n))
            if r[0] in ("fold", "jfold"):
                for u in list(walk(body)):
                    if isinstance(u, tuple) and u and u[0] == "accv" and u[1] == old:
                        body = subst(body, u, ("accv", n) + u[2:])
            r = r[:-2] + (n, body)
        return r

    def rebind(self, t):
        """binder levels count the binders below: recompute them after a decision was removed"""
        memo = {}

        def go(x):
            if not isinstance(x, (tuple, frozenset)):
                return x
            if x in memo:
                return memo[x]
            if isinstance(x, frozenset):
                r = frozenset(go(y) for y in x)
            else:
                r = tuple(go(y) for y in x)
                r = renorm(r) if r != x else x
                r = self.relevel(r)
            memo[x] = r
            return r
        return go(t)


def inplace_map(t):
    """a loop that only rewrites acc[i] at the running index i maps the array in place"""
    _, init, src, rows = t
    if src[0] == "rev" and src[1][0] == "range":    # each element for itself: the order does not matter
        src, rows = src[1], subst(rows, src, src[1])
    accs = {v if v[0] == "acc" else v[1] for _, v in rows if v[0] == "acc" or v[0] == "upd"}
    if len(accs) != 1 or src[0] in ("rev", "zip", "chain", "itermut"):
        return None
    (acc,) = accs
    if acc[0] != "acc" or len(acc) != 2 or not isinstance(acc[1], int):
        return None
    d = acc[1]
    e = ("elem", src, d)
    idx = [("idx", e), ("ei", src, d)]
    if src[0] == "range":
        n = len(init[1]) if init[0] == "arr" else None
        if src[1] != ("c", 0) or src[2] not in (("c", n), ("call", "len", (init,))):
            return None
        idx.append(e)
    out, some = [], False
    for fs, v in rows:
        if v != acc:
            if not (v[0] == "upd" and v[1] == acc and all(p[0][0] == "ix" and p[0][1] in idx for p, _ in v[2])):
                return None
            if len(v[2]) == 1 and len(v[2][0][0]) == 1:
                v = v[2][0][1]
            elif all(len(p) > 1 for p, _ in v[2]):
                v = ("upd", ("ix", acc, v[2][0][0][0][1]), tuple((p[1:], x) for p, x in v[2]))
            else:
                return None
            some = True
        else:
            v = ("ix", acc, idx[0])
        out.append((fs, v))
    if not some:
        return None
    new = frozenset(out)
    for i in idx:
        new = subst(new, ("ix", acc, i), ("elem", init, d))
    for i in idx:
        new = subst(new, i, ("ei", init, d))
    rest = subst(subst(subst(new, e, ("c", 0)), ("elem", init, d), ("c", 0)), ("ei", init, d), ("c", 0))
    if any(u == acc for u in walk(rest)):
        return None
    return ("mapped", init, new)


def subst_elems(rows, old, new):
    for u in {u for u in walk(rows) if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and u[1] == old}:
        rows = subst(rows, u, (u[0], new, u[2]))
    return rows


def range_to_slice(src, rows):
    """for i in a..b, used only to read v[i] -> the elements of v[a..b]"""
    d = own_depth(src, rows)
    if d is None:
        return src, rows
    e = ("elem", src, d)
    vs = {u[1] for u in walk(rows) if isinstance(u, tuple) and len(u) == 3 and u[0] == "ix" and u[2] == e}
    if len(vs) != 1:
        return src, rows
    v = vs.pop()
    if v[0] in ("acc", "lv", "upd") or occurs(e, v):
        return src, rows
    sl = ("slice", v, src[1], src[2])
    new = subst(rows, ("ix", v, e), ("elem", sl, d))
    if any(isinstance(u, tuple) and len(u) == 3 and u[0] == "ei" and u[1] == src for u in walk(new)):
        return src, rows
    return (sl, new) if not occurs(e, new) else (src, rows)


def int_atom(x):
    return bool(NONNEG) and NONNEG[0](x) and not (x[0] == "call" and x[1] in ("abs", "sqrt"))


def int_poly(t):
    return isinstance(t, tuple) and t[0] in ("n", "f", "p", "call", "findidx", "ix") and all(Fraction(v).denominator == 1 and all(e > 0 and int_atom(x) for x, e in m) for m, v in poly(t))


def implied(table, u, h):
    """the value y (free of the bound element) with u = y wherever the canonical predicate holds"""
    while isinstance(table, tuple) and table and table[0] == "dd" and len(table) == 3:
        live = [(v, k) for v, k in table[2] if k != F]
        if len(live) != 1:
            return None
        (v, table2), at = live[0], table[1]
        bound = lambda y: any(isinstance(w, tuple) and len(w) > 1 and w[0] in ("bv", "elembv", "eibv", "accv") and w[1] == h for w in walk(y))
        if at[0] == "b" and v is True and at[1][0] == "eq":
            a, b = at[1][1], at[1][2]
            if a == u and not bound(b):
                return b
            if b == u and not bound(a):
                return a
        if at[0] == "cmp" and v == "=":
            ms = poly(at[1])
            for m, x in ms:
                if len(m) == 1 and m[0][1] == 1 and m[0][0] == u:
                    rest = frompoly(tuple((m2, -x2 / x) for m2, x2 in ms if m2 != m))
                    if not bound(rest):
                        return rest
        table = table2
    return None


def empties_of(facts):
    out = set()
    for k, v in facts.items():
        if k[0] == "cmp" and (v == "=" or v == "<=") and isinstance(k[1], tuple) and k[1][:2] == ("call", "len"):
            out.add(k[1][2][0])
    zero = {k[1] for k, v in facts.items() if k[0] == "cmp" and (v == "=" or v == "<=" and int_poly(k[1]))}
    if zero:
        for k in facts:
            for u in walk(k):
                if isinstance(u, tuple) and len(u) == 4 and u[0] == "slice":
                    n = sub(u[3], u[2])
                    if n in zero or n == ("c", 0):
                        out.add(u)
    return out


SKIPV = ("noelem",)


BIG = (340282350000000000000000000000000000000, int(1.7976931348623157e308), 17976931348623157 * 10 ** 292)      # fsize::MAX as a starting value stands for infinity
BINDERS = ("exists", "find", "findidx", "rfindidx", "sortpos", "fold", "collect", "jfold")


def leafsub(t, x, val=("agg", "Option", "None", ())):
    """values below `x is None`: x itself is None"""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "dd":
        r = tuple((v, leafsub(y, x, val)) for v, y in t[2])
        return t if r == t[2] else ("dd", t[1], r)
    return subst(t, x, val)


def open_binder(r, n):
    old, body, new = r[-2], r[-1], ("bv", ("x", n))
    body = subst(body, ("bv", old), new)
    for u in {u for u in walk(body) if isinstance(u, tuple) and u and u[0] == "accv" and u[1] == old}:
        if True:
            body = subst(body, u, ("accv", ("x", n)) + u[2:])
    return r[:-2] + (("x", n), body)


def deq(a, b, n=0):
    """equality of canonical terms; BOT (a case that cannot be reached or panics) matches anything"""
    if a == b or a == BOT or b == BOT:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in BINDERS and len(a) == len(b) > 3 and isinstance(a[-2], int) and isinstance(b[-2], int):
        return deq(open_binder(a, n), open_binder(b, n), n + 1)
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return False
    if a[0] == "dd" or b[0] == "dd":
        ats = [x[1] for x in (a, b) if x[0] == "dd"]
        at = min(ats, key=lambda x: (tsize(x), key(x)))
        vals = []
        for x in (a, b):
            if x[0] == "dd" and x[1] == at:
                vals += [v for v, _ in x[2] if v not in vals]
        return all(deq(cof(a, at, v), cof(b, at, v), n) for v in vals)
    if (a[0] == "n" or b[0] == "n") and any(isinstance(u, tuple) and len(u) == 2 and isinstance(u[1], int) and u[1] < 0 for x in (a, b) if x[0] == "n" for m, _ in x[1] for u in m):
        if clear_denominators(sub(a, b))[0] == ("c", 0):
            return True
    if len(a) != len(b):
        return False
    return all(deq(x, y, n) for x, y in zip(a, b))


def fieldof(y, f):
    r = implied(y[3], ("f", ("bv", y[2]), f), y[2]) if y[0] == "find" and len(y) == 4 else None
    return ("f", y, f) if r is None else r


def align(a, b):
    """eta: where one side spells out a struct and the other names it, spell out both"""
    if a == b or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return a, b
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == "agg" and x[1:3] == ("Option", "Some") and len(x) == 4 and len(x[3]) == 1 and x[3][0][1] == ("f", ("as", y, "Some"), "0"):
            return y, y         # Some(y.unwrap()) is y
        if x[0] == "agg" and len(x) == 4 and x[3] and x[1] == x[2] and y[0] == "upd" and len(y) == 3 and all(len(p) == 1 and p[0][0] == "f" for p, _ in y[2]):
            d = {p[0][1]: v for p, v in y[2]}
            if set(d) <= {f for f, _ in x[3]}:
                y2 = ("agg", x[1], x[2], tuple((f, d.get(f, fieldof(y[1], f))) for f, _ in x[3]))
                return align(y2, b) if sw else align(a, y2)
        if x[0] == "agg" and len(x) == 4 and x[3] and y[0] in ("p", "f", "ix", "call", "mut", "bv", "find") and (x[1] == x[2] or x[2] == "Some"):
            base = y if x[1] == x[2] else ("as", y, x[2])
            if x[1] != x[2]:
                continue
            y2 = ("agg", x[1], x[2], tuple((f, fieldof(base, f)) for f, _ in x[3]))
            return align(y2, b) if sw else align(a, y2)
    if len(a) == len(b) and (a[0] == b[0] or not isinstance(a[0], str)):
        ps = [align(x, y) for x, y in zip(a, b)]
        return tuple(x for x, _ in ps), tuple(y for _, y in ps)
    return a, b


def cof(t, at, v):
    if t[0] == "dd" and t[1] == at:
        for w, x in t[2]:
            if w == v:
                return x
        return BOT
    if t[0] == "dd":
        r = tuple((w, cof(x, at, v)) for w, x in t[2])
        return t if r == t[2] else r[0][1] if len({x for _, x in r}) == 1 else ("dd", t[1], r)
    return t


FOREVER = ("call", "forever", ())


@lru_cache(maxsize=None)
def prune_bot(t):
    """the value where it exists: cases that panic or cannot be reached are left out of a case distinction"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "dd":
        arms = tuple((w, y) for w, y in ((w, prune_bot(x)) for w, x in t[2]) if y != BOT)
        if not arms:
            return BOT
        return arms[0][1] if len({y for _, y in arms}) == 1 else ("dd", t[1], arms)
    r = tuple(prune_bot(x) for x in t)
    return t if r == t else r


@lru_cache(maxsize=None)
def tsize(t):
    """number of nodes: an enum test on a place sorts before tests on what is inside that variant"""
    return 1 + sum(tsize(x) for x in t) if isinstance(t, (tuple, frozenset)) else 1


def fuse_map(src, rows, kind=None):
    """a loop over s.map(f) (or, for kinds where skipping is harmless, s.filter(p).map(f)) is a loop over s"""
    while True:
        if src[0] == "collect" and len(src) == 4 and src[1] == ("call", "emptyvec", ()) and isinstance(src[3], frozenset):
            s2, inner = src[2], src[3]
            if (len(inner) != 1 or list(inner)[0][0]) and any(e == SKIPV for _, e in inner):
                if kind not in ("exists", "collect", "fold") or any(isinstance(u, tuple) and len(u) == 3 and u[0] == "ei" and u[1] == src for u in walk(rows)):
                    break
        elif src[0] == "mapped" and len(src) == 3 and isinstance(src[2], frozenset):
            s2, inner = src[1], src[2]
        elif src[0] == "fold" and len(src) == 4 and isinstance(src[3], frozenset) and inplace_map(src) is not None:
            _, s2, inner = inplace_map(src)
        else:
            break
        if not isinstance(rows, frozenset) or len(inner) * len(rows) > 64:
            break
        if kind in ("find", "findidx", "rfindidx", "sortpos") and src[0] == "collect":
            if kind == "find":
                break
        d0 = own_depth(s2, inner)
        old = src
        new = set()
        for fs, e in inner:
            if e == SKIPV:
                dep = own_depth(old, rows)
                fs2 = substfree(fs, lambda w: (w[0], w[1], dep) if d0 is not None and w[2] == d0 else None, {}) if dep is not None else fs
                if kind == "collect":
                    new.add((fs2, SKIPV))
                elif kind == "fold":
                    new.add((fs2, ("acc", dep if dep is not None else d0)))
                continue
            for row in rows:
                depth = [None]

                def at(x, d):
                    return substfree(x, lambda w: (w[0], w[1], d) if d0 is not None and w[2] == d0 else None, {})

                def rep(u):
                    if u[1] != old:
                        return None
                    depth[0] = u[2]
                    if u[0] == "ei":
                        return ("ei", s2, u[2])
                    return at(e, u[2])
                row2 = substfree(row, rep, {})
                fs2 = at(fs, depth[0]) if depth[0] is not None else at(fs, 0) if fs else fs
                m = merge_facts(row2[0] if isinstance(row2, tuple) and row2 and isinstance(row2[0], frozenset) else row2, fs2)
                if m is None:
                    continue
                new.add((m, row2[1]) if isinstance(row2, tuple) and row2 and isinstance(row2[0], frozenset) else m)
        rows = frozenset(new)
        src = s2
    src, rows = fuse_values(src, rows)
    return src, rows


def merge_facts(a, b):
    d = dict(a)
    for k, v in b:
        if k in d and d[k] != v:
            if k[0] == "b":
                return None
            if k[0] == "is" and isinstance(v, frozenset):
                v = v & d[k]
                if not v:
                    return None
            elif k[0] == "cmp" and isinstance(v, str):
                w = set(v) & set(d[k])
                if not w:
                    return None
                v = "".join(x for x in "<=>" if x in w)
                v = {"=>": "=>", "<=": "<=", "<>": "<>"}.get(v, v)
        d[k] = v
    return frozenset(d.items())


def fuse_values(src, rows):
    """a loop over the values (keys) of a map is a loop over its entries"""
    if src[0] == "call" and src[1] in ("smvalues", "smkeys") and len(src[2]) == 1:
        old, s2, f = src, src[2][0], "1" if src[1] == "smvalues" else "0"
        rows = substfree(rows, lambda u: None if u[1] != old else ("ei", s2, u[2]) if u[0] == "ei" else ("f", ("elem", s2, u[2]), f), {})
        src = s2
    return src, rows


def pair_len(rows, n):
    """the elements of chunks(2) have one or two entries: len == 2 is len > 1"""
    one, two = cmp(n, ("c", 1), "="), cmp(n, ("c", 2), "=")
    if not isinstance(rows, frozenset):
        return rows
    out = set()
    for r in rows:
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], frozenset)):
            return rows
        v1 = "=>"
        rest = []
        for k, v in r[0]:
            if k == ("cmp", one[1]):
                v1 = "".join(c for c in v1 if c in v)
            elif k == ("cmp", two[1]):
                v1 = "".join(c for c in v1 if {"=": "<", ">": "="}[c] in v)
            else:
                rest.append((k, v))
        if v1:
            out.add((frozenset(rest + ([(("cmp", one[1]), v1)] if v1 != "=>" else [])), r[1]))
    return frozenset(out)


def keeps_bin(x, acc):
    """placing items and flushing changes leave the bin of the strip's layout as it is (the frames of Layout's contracts)"""
    while x[0] == "mut" and x[2] == 0 and x[1] in ("<SPProblem as ProblemGeneric>::place_item", "ProblemGeneric::flush_changes"):
        x = x[3][0]
    return x == acc


def aligned(r):
    """`missing_item_qtys` has one entry per item type of the instance (both are indexed by item id): a loop over the one
    that reads the other at the same index is written over the items"""
    src = r[-3]
    if r[0] != "collect" or not (src[0] == "f" and src[2] == "missing_item_qtys"):
        return r
    h, body = r[-2], r[-1]
    items = ("f", ("f", src[1], "instance"), "items")
    mine = ("elembv", items, ("bv", h))
    if mine not in walk(body):
        return r
    tmp = ("tmpbv",)
    b2 = subst(subst(body, mine, tmp), ("elembv", src, ("bv", h)), ("tmpself",))
    keep = {u for u in walk(b2) if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elembv", "eibv") and u[2] == ("bv", h)}
    b3 = b2
    for i, u in enumerate(keep):
        if u[0] == "eibv":
            return r
        b3 = subst(b3, u, ("tmpk", i))
    if ("bv", h) in walk(b3):
        return r                # it also reads the old entry
    for i, u in enumerate(keep):
        b3 = subst(b3, ("tmpk", i), u)
    if ("tmpself",) in walk(b3):
        return r
    return r[:-3] + (items, h, subst(b3, tmp, ("bv", h)))


def binder(t):
    """(source, rows) of a raw binding term"""
    k = t[0] if t else None
    if k in ("exists", "find", "findidx", "rfindidx", "sortpos", "mapped") and len(t) == 3 and isinstance(t[2], frozenset):
        return t[1], t[2]
    if k in ("fold", "collect", "jfold") and len(t) == 4 and isinstance(t[3], frozenset):
        return t[2], t[3]
    if k == "call" and len(t) == 3 and isinstance(t[2], tuple) and len(t[2]) > 1 and isinstance(t[2][1], frozenset):
        return t[2][0], t[2][1]
    return None


def binds(u, src):
    """can this element belong to a loop over src?"""
    s = u[1]
    return (s == src or strip_rev(s) == strip_rev(src) or (strip_rev(s)[0] == "range" and strip_rev(s)[2] == ("call", "len", (strip_rev(src),)))
            or src[0] == "itermut" or (src[0] == "zip" and s in zparts(src)))


_free = {}


def freeel(t):
    """element terms not bound inside t"""
    if not isinstance(t, (tuple, frozenset)) or not t:
        return frozenset()
    r = _free.get(t)
    if r is not None:
        return r
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ("elem", "ei") and isinstance(t[1], tuple):
        r = freeel(t[1]) | ({t} if isinstance(t[2], int) else frozenset())
    else:
        b = binder(t) if isinstance(t, tuple) else None
        r = frozenset()
        for x in t:
            if b and (x is b[1]) and t[0] != "call":
                d = own_depth(b[0], b[1])
                r = r | frozenset(u for u in freeel(x) if d is None or u[2] not in (d, d + 1000000))
            elif b and t[0] == "call" and x is t[2]:
                d = own_depth(b[0], b[1])
                for y in x:
                    r = r | (frozenset(u for u in freeel(y) if d is None or u[2] not in (d, d + 1000000)) if y is b[1] else freeel(y))
            elif isinstance(x, (tuple, frozenset)):
                r = r | freeel(x)
    r = frozenset(r)
    if len(_free) > 200000:
        _free.clear()
    _free[t] = r
    return r


def own_depth(src, rows):
    ds = [u[2] for u in freeel(rows) if binds(u, src)]
    return max(ds) if ds else None


def substfree(t, f, memo):
    if not isinstance(t, (tuple, frozenset)) or not t:
        return t
    if t in memo:
        return memo[t]
    if not any(f(u) is not None for u in freeel(t)):
        memo[t] = t
        return t
    if isinstance(t, frozenset):
        r = frozenset(substfree(x, f, memo) for x in t)
    elif len(t) == 3 and t[0] in ("elem", "ei") and isinstance(t[1], tuple):
        r = f(t) if isinstance(t[2], int) else None
        if r is None:
            r = (t[0], substfree(t[1], f, memo), t[2])
    else:
        b = binder(t)
        if b:
            d = own_depth(b[0], b[1])
            g = (lambda u: None if u[2] in (d, d + 1000000) else f(u)) if d is not None else f
            m2 = {}
            new = substfree(b[1], g, m2)
            if t[0] == "call":
                r = (t[0], t[1], tuple(new if y is b[1] else substfree(y, f, memo) for y in t[2]))
            else:
                r = tuple(new if x is b[1] else substfree(x, f, memo) for x in t)
        else:
            r = tuple(substfree(x, f, memo) for x in t)
            r = renorm(r) if r != t else t
    memo[t] = r
    return r


def srckey(s, src):
    if s == src or (strip_rev(s)[0] == "range" and s != src and strip_rev(s)[2] == ("call", "len", (strip_rev(src),))):
        return ("self",)
    if s[0] == "rev" and src[0] == "rev" and s[1] == src[1]:
        return ("self",)
    return s if src[0] not in ("itermut",) else ("self",)


def zparts(s):
    if s[0] == "zip":
        return zparts(s[1]) | zparts(s[2]) | {s}
    return {s}


def subst_accs(rows, h):
    ds = {u for u in walk(rows) if isinstance(u, tuple) and u and u[0] == "acc" and len(u) in (2, 3)}
    m = max((u[1] for u in ds if isinstance(u[1], int)), default=None)
    for u in ds:
        if u[1] == m:
            rows = subst(rows, u, ("accv", h) + u[2:])
    return rows
