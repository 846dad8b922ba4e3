"""Per-key abstract interpretation of function summaries.

Collections whose elements carry a unique key (hazards by entity, layouts by id) are abstracted to what they hold for one
arbitrary key K.  The abstract value of such a collection is the tuple of the contents of its elements with key K; nothing
is known about the other elements.  A loop over a collection is then: any number of iterations for other keys, at most one
iteration for K, any number of iterations for other keys.  The analysis checks that an iteration for another key leaves
what is known about K alone (otherwise it gives up), so the iteration for K decides the result.  Everything that is not
exactly representable raises Undecided."""
from terms import walk, show, T, F
from absint import project


class Undecided(Exception):
    pass


K, O = "K", "O"


def coll(*contents):
    return ("C", tuple(contents))


def elem(tag, content=None):
    return ("E", tag, content if tag == K else None)


class Keyed:
    def __init__(self, keyfields, base, muts=None, calls=None):
        """base: term -> abstract value; muts/calls: name -> function(evaluated args) -> value"""
        self.keyfields, self.base, self.muts, self.calls = keyfields, base, muts or {}, calls or {}
        self.elems, self.accs = {}, {}
        self.trace = []
        self.unsorted = None

    # ---------- values
    def ev(self, t):
        if t in self.base:
            return self.base[t]
        h = t[0]
        m = getattr(self, "t_" + h, None)
        if m is None:
            raise Undecided("term " + show(t)[:80])
        return m(t)

    def t_c(self, t):
        return ("k", t[1])

    def t_T(self, t):
        return ("B", True)

    def t_F(self, t):
        return ("B", False)

    def t_elem(self, t):
        if t[1:3] in self.elems:
            return self.elems[t[1:3]]
        raise Undecided("element of " + show(t[1])[:60])

    def t_acc(self, t):
        v = self.accs.get(t[1])
        if v is None:
            raise Undecided("accumulator")
        return v[t[2]] if len(t) == 3 else v

    def t_f(self, t):
        v = self.ev(t[1])
        if v[0] == "E" and t[2] in self.keyfields:
            return v
        if v[0] == "S" and t[2] in dict(v[1]):
            return dict(v[1])[t[2]]
        raise Undecided("field %s of %s" % (t[2], show(t[1])[:60]))

    def t_agg(self, t):
        fs = {}
        for f, x in t[3]:
            try:
                fs[f] = self.ev(x)
            except Undecided:
                pass
        ks = [fs[f] for f in self.keyfields if f in fs and fs[f][0] == "E"]
        if t[1] == t[2] and len(ks) == 1:
            return ("E", ks[0][1], ("S",) + tuple(sorted((f, v) for f, v in fs.items() if f not in self.keyfields)) if ks[0][1] == K else None)
        raise Undecided("struct " + show(t)[:60])

    def t_upd(self, t):
        v = self.ev(t[1])
        if v[0] == "E" and not any(p[0] == ("f", k) for p, _ in t[2] for k in self.keyfields):
            return elem(v[1], "changed")
        raise Undecided("update of " + show(t[1])[:60])

    def t_jf(self, t):
        v = self.ev(t[2])
        if v[0] != "J":
            raise Undecided("joint loop")
        return v[1][t[1]]

    # ---------- facts
    def fact(self, k, v):
        """True/False/None"""
        if k[0] == "b":
            b = self.boolean(k[1])
            return None if b is None else b == v
        if k[0] == "is":
            w = self.variant(k[1])
            if w is None:
                return None
            return w in v if isinstance(v, frozenset) else w == v
        if k[0] == "cmp":
            n = k[1]
            if n[0] == "n" and len(n[1]) == 2 and sorted(c for _, c in n[1]) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in n[1]):
                e = self.same(*[self.ev(m[0][0]) for m, _ in n[1]])
                if e is None:
                    return None
                if e:
                    return "=" in v or v == "="
                return True if v == "<>" else False if v == "=" else None
            if n[0] == "call" and n[1] == "len":
                c = self.ev(n[2][0])
                if c[0] == "C" and c[1]:        # not empty
                    return True if v in (">", "<>", ">=") else False if v in ("=", "<", "<=") else None
            return None
        return None

    def same(self, a, b):
        if a[0] == "E" and b[0] == "E":
            return True if a[1] == b[1] == K else None if a[1] == b[1] == O else False
        if a[0] == b[0] == "k":
            return a == b
        return None

    def boolean(self, t):
        h = t[0]
        if h == "T" or h == "F":
            return h == "T"
        if h == "eq" or h == "call" and t[1] in ("eq",):
            args = t[1:] if h == "eq" else t[2]
            return self.same(*[self.ev(x) for x in args])
        if h == "exists":
            return self.exists(t)
        if h == "call" and t[1] == "contains":
            return self.member(self.ev(t[2][0]), self.ev(t[2][1]))
        if h == "call" and t[1] == "is_empty":
            c = self.ev(t[2][0])
            return False if c[0] == "C" and c[1] else None
        return None

    def variant(self, t):
        if t[0] == "agg":
            return t[2]
        if t[0] == "call" and t[1].endswith("::binary_search"):
            if "sorted" not in {x for u in walk(t[2][0]) if isinstance(u, tuple) and len(u) > 1 and u[0] in ("call", "mut") for x in str(u[1]).split("_")[:1]}:
                self.unsorted = t[2][0]
                if t[2][0][0] not in ("fold", "jf", "jfold", "collect"):
                    raise Undecided("binary search in a vector whose order is not known")
            for u in walk(t[2][0]):
                if isinstance(u, tuple) and len(u) == 3 and u[0] in ("call", "mut") and u[1] == "sorted_by":
                    lam = u[2][-1]
                    if lam[0] == "lam" and len(lam[1]) == 1 and list(lam[1])[0] == (frozenset(), ("ord", ("arg", 1), ("arg", 0))):
                        self.unsorted = t[2][0]
                    else:
                        raise Undecided("binary search in a vector whose order is not known")
            m = self.member(self.ev(t[2][0]), self.ev(t[2][1]))
            return None if m is None else "Ok" if m else "Err"
        if t[0] == "call" and t[1] in ("set_take", "map_remove", "get"):
            m = self.member(self.ev(t[2][0]), self.ev(t[2][1]))
            return None if m is None else "Some" if m else "None"
        return None

    def member(self, c, e):
        if c[0] != "C" or e[0] != "E":
            raise Undecided("membership")
        return bool(c[1]) if e[1] == K else None

    def conj(self, fs):
        r = True
        for k, v in fs:
            b = self.fact(k, v)
            if b is False:
                return False
            if b is None:
                r = None
        return r

    def dnf(self, alts):
        r = False
        for a in alts:
            b = self.conj(a)
            if b:
                return True
            if b is None:
                r = None
        return r

    # ---------- binders
    def level(self, src, body):
        ns = [u[2] for u in walk(body) if isinstance(u, tuple) and len(u) == 3 and u[0] == "elem" and u[1] == src]
        if ns:
            return min(ns)
        ns = [u[1] for u in walk(body) if isinstance(u, tuple) and u and u[0] == "acc" and len(u) in (2, 3) and isinstance(u[1], int)]
        return min(ns) if ns else None

    def bound(self, src, n, e, f, acc=None):
        k = (src, n)
        old, olda = self.elems.get(k), self.accs.get(n)
        self.elems[k] = e
        if acc is not None:
            self.accs[n] = acc
        try:
            return f()
        finally:
            if old is None:
                self.elems.pop(k, None)
            else:
                self.elems[k] = old
            if acc is not None:
                if olda is None:
                    self.accs.pop(n, None)
                else:
                    self.accs[n] = olda

    def parts(self, t, alts):
        src = t[1]
        c = self.ev(src)
        if c[0] != "C":
            raise Undecided("not a keyed collection: " + show(src)[:60])
        n = self.level(src, alts)
        ks = [self.bound(src, n, elem(K, x), lambda: self.dnf(alts)) for x in c[1]]
        return c, ks, self.bound(src, n, elem(O), lambda: self.dnf(alts))

    def exists(self, t):
        c, ks, o = self.parts(t, t[2])
        if any(k is True for k in ks):
            return True
        return False if o is False and all(k is False for k in ks) else None

    def which(self, t):
        c, ks, o = self.parts(t, t[2])
        if o is False and len(ks) == 1 and ks[0] is True:
            return elem(K, c[1][0])
        if o is not False and all(k is False for k in ks):
            return elem(O)
        raise Undecided("which element is found in " + show(t[1])[:60])

    def t_find(self, t):
        return self.which(t)

    def t_findidx(self, t):
        return ("I", t[1], self.which(t)[1])

    def rows(self, rows):
        """the possible results of a case distinction"""
        out = []
        for fs, v in rows:
            b = self.conj(fs)
            if b is False:
                continue
            out.append((b, v))
        sure = [v for b, v in out if b]
        return sure[:1] if sure else [v for _, v in out]

    def one(self, rows):
        vs = []
        for v in self.rows(rows):
            x = None if v == ("noelem",) else self.ev(v)
            if x not in vs:
                vs.append(x)
        if len(vs) != 1:
            raise Undecided("a case distinction that the key does not decide")
        return vs[0]

    def others(self, rows):
        vs = []
        for v in self.rows(rows):
            x = None if v == ("noelem",) else self.ev(v)
            if x is not None and (x[0] != "E" or x[1] != O):
                raise Undecided("an element for another key")

    def t_collect(self, t):
        init, src, rows = t[1], t[2], t[3]
        c = self.ev(src)
        i = self.ev(init)
        if c[0] != "C" or i[0] != "C":
            raise Undecided("collect over " + show(src)[:60])
        n = self.level(src, rows)
        self.bound(src, n, elem(O), lambda: self.others(rows))
        r = list(i[1])
        for x in c[1]:
            y = self.bound(src, n, elem(K, x), lambda: self.one(rows))
            if y is None:
                continue
            if y[0] != "E" or y[1] != K:
                raise Undecided("an element that changes its key")
            r.append(y[2])
        return ("C", tuple(r))

    def t_mapped(self, t):
        return self.t_collect(("collect", ("call", "emptyvec", ()), t[1], t[2]))

    def t_filter(self, t):
        return self.t_collect(("collect", ("call", "emptyvec", ()), t[1], frozenset((a, ("elem", t[1], 0)) for a in t[2])))

    def loop(self, src, rows, state, value):
        c = self.ev(src)
        if c[0] != "C":
            raise Undecided("loop over " + show(src)[:60])
        n = self.level(src, rows)

        def still(s):
            for v in self.bound(src, n, elem(O), lambda: [value(x) for x in self.rows(rows)], acc=s):
                if v != s:
                    raise Undecided("an iteration for another key changes what is known about this one")
        still(state)
        for x in c[1]:
            vs = []
            for v in self.bound(src, n, elem(K, x), lambda: [value(y) for y in self.rows(rows)], acc=state):
                if v not in vs:
                    vs.append(v)
            if len(vs) != 1:
                raise Undecided("a loop body whose effect the key does not decide")
            state = vs[0]
            still(state)
        return state

    def t_fold(self, t):
        return self.loop(t[2], t[3], self.ev(t[1]), self.ev)

    def t_jfold(self, t):
        return ("J", self.loop(t[2], t[3], tuple(self.ev(x) for x in t[1]), lambda v: tuple(self.ev(x) for x in v)))

    # ---------- operations
    def t_call(self, t):
        n, a = t[1], t[2]
        if n in self.calls:
            return self.calls[n](*[self.ev(x) for x in a])
        if n in ("emptyvec", "emptyset"):
            return coll()
        if n in ("sorted", "rev", "dedup", "sorted_by_key", "sorted_by"):
            return self.ev(a[0])
        if n in ("push", "set_insert", "set_add"):
            c, e = self.ev(a[0]), self.ev(a[1])
            if c[0] != "C" or e[0] != "E":
                raise Undecided(n)
            if e[1] == O or n != "push" and c[1]:
                return c
            return ("C", c[1] + (e[2],))
        if n in ("append", "concat", "extend"):
            c, d = self.ev(a[0]), self.ev(a[1])
            if c[0] != "C" or d[0] != "C":
                raise Undecided(n)
            return ("C", c[1] + d[1])
        if n == "set_remove":
            c, e = self.ev(a[0]), self.ev(a[1])
            if c[0] != "C" or e[0] != "E":
                raise Undecided(n)
            return c if e[1] == O else coll()
        if n in ("swap_remove", "remove"):
            c, i = self.ev(a[0]), self.ev(a[1])
            if c[0] != "C" or i[0] != "I" or i[1] != a[0]:
                raise Undecided(n)
            return c if i[2] == O else ("C", c[1][1:])
        raise Undecided("call of " + n)

    def t_mut(self, t):
        f = self.muts.get((t[1], t[2]))
        if f is None:
            raise Undecided("call of " + str(t[1]))
        return f(*[self.ev(x) if i == t[2] or True else None for i, x in enumerate(t[3])])
