"""Contract language: parser, and the comparison of a contract with the path summary of a function.

A contract clause `lhs = expr` states the value of a place (or of the return value) on every normal path as a
function of the entry state.  A path whose branch facts are consistent with a case of the contract must have the
value of that case; a difference counts as a violation only when the path and both values are completely
understood (no unmodelled library call, no unsummarised loop state)."""
import os
import re
from fractions import Fraction
from terms import *
from absint import Interp, St, Path, TooComplex, project, readpath, setpath, showfact, implied_cmp, mklen, mkcollect, EMPTY, PRESERVES, NOELEM, joint_terms
import canon
import models
from canon import Canon, BOT, empties_of, deq, tsize, align, prune_bot

TOK = re.compile(r"\s*(?:(\d+\.\d+|\d+)|(`[^`]*`)|(\$(?:cap:)?\w+)|([A-Za-z_][\w]*(?:::[A-Za-z_][\w]*)*)|(\|\||&&|<=|>=|==|!=|->|=>|\.\.|[-+*/^(){}\[\],.:#!<>=|?;@]))")


class P_:
    def __init__(self, text, sp):
        self.toks = []
        self.sp = sp
        i = 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise SyntaxError("contract: %r" % text[i:i + 40])
            i = m.end()
            for k, g in zip(("num", "q", "p", "id", "op"), m.groups()):
                if g is not None and k == "num" and "." in g and self.toks and self.toks[-1] == ("op", "."):
                    a_, b_ = g.split(".")
                    self.toks += [("num", a_), ("op", "."), ("num", b_)]
                elif g is not None:
                    self.toks.append((k, g))
        self.toks.append(("end", ""))
        self.i = 0

    def peek(self, v=None):
        t = self.toks[self.i]
        return t if v is None else t[1] == v and t[0] in ("op", "id")

    def next(self, v=None):
        t = self.toks[self.i]
        if v is not None and t[1] != v:
            raise SyntaxError("expected %s got %s in %s" % (v, t, " ".join(x[1] for x in self.toks[max(0, self.i - 8):self.i + 8])))
        self.i += 1
        return t

    def expr(self, env):
        if self.peek("if"):
            self.next()
            c_ = self.expr(env)
            self.next("then")
            a = self.expr(env)
            self.next("else")
            b = self.expr(env)
            return ("ite", c_, a, b)
        return self.or_(env)

    def or_(self, env):
        a = self.and_(env)
        while self.peek("||"):
            self.next()
            b = self.and_(env)
            a = mkor(a, b)
        return a

    def and_(self, env):
        a = self.nt(env)
        while self.peek("&&"):
            self.next()
            b = self.nt(env)
            a = mkand(a, b)
        return a

    def nt(self, env):
        if self.peek("!"):
            self.next()
            return not_(self.nt(env))
        return self.cmp_(env)

    def cmp_(self, env):
        a = self.sum_(env)
        t = self.peek()
        rel = {"<": "<", "<=": "<=", ">": ">", ">=": "=>", "==": "=", "!=": "<>"}.get(t[1]) if t[0] == "op" else None
        if rel:
            self.next()
            b = self.sum_(env)
            return ("rel", a, b, rel) if has_ite(a) or has_ite(b) else cmp(a, b, rel)
        if t == ("id", "is"):
            self.next()
            n = self.next()[1]
            return self.is_(a, n)
        return a

    def is_(self, a, n):
        adt, v = self.sp.variant(n)
        return ("is", a, adt, v)

    def sum_(self, env):
        a = self.prod(env)
        while self.peek("+") or self.peek("-"):
            o = self.next()[1]
            b = self.prod(env)
            if has_ite(a) or has_ite(b):
                a = ("arith", o, a, b)
            else:
                a = add(a, b) if o == "+" else sub(a, b)
        return a

    def prod(self, env):
        a = self.un(env)
        while self.peek("*") or self.peek("/"):
            o = self.next()[1]
            b = self.un(env)
            if has_ite(a) or has_ite(b):
                a = ("arith", o, a, b)
            else:
                a = mul(a, b) if o == "*" else div(a, b)
        return a

    def un(self, env):
        if self.peek("-"):
            self.next()
            return neg(self.un(env))
        return self.post(env)

    def post(self, env):
        a = self.prim(env)
        while True:
            if self.peek("."):
                self.next()
                n = self.next()[1]
                a = proj_ite(a, ("f", n))
            elif self.peek("#"):
                self.next()
                a = proj_ite(a, ("as", self.next()[1]))
            elif self.peek("["):
                self.next()
                i = self.expr(env)
                self.next("]")
                a = proj_ite(a, ("ix", i))
            elif self.peek("^"):
                self.next()
                n = int(self.next()[1])
                r = ("c", 1)
                for _ in range(n):
                    r = mul(r, a)
                a = r
            elif self.peek("with"):
                self.next()
                self.next("{")
                while not self.peek("}"):
                    path = []
                    while self.peek(".") or self.peek("["):
                        if self.next()[1] == ".":
                            path.append(("f", self.next()[1]))
                        else:
                            path.append(("ix", self.expr(env)))
                            self.next("]")
                        while self.peek("#"):
                            self.next()
                            path.append(("as", self.next()[1]))
                    self.next("=")
                    v = self.expr(env)
                    a = setpath(a, tuple(path), v)
                    if self.peek(","):
                        self.next()
                self.next("}")
            else:
                return a

    def args(self, env, close=")"):
        out = []
        while not self.peek(close):
            out.append(self.expr(env))
            if self.peek(","):
                self.next()
        self.next(close)
        return out

    def prim(self, env):
        k, v = self.next()
        if k == "num":
            return frac(Fraction(v))
        if k == "p":
            return ("p", v[1:])
        if k == "op" and v == "(":
            xs = self.args(env)
            return xs[0] if len(xs) == 1 else ("tup", tuple(xs))
        if k == "op" and v == "[":
            return ("arr", tuple(self.args(env, "]")))
        if k in ("id", "q"):
            n = v.strip("`")
            if k == "q" and re.search(r"!\d$", n) and self.peek("("):
                self.next()
                return ("mut", n[:-2], int(n[-1]), tuple(self.args(env)))
            if n == "true":
                return T
            if n == "false":
                return F
            if k == "id" and n in ("inf",):
                return ("c", "inf")
            if k == "id" and n in env:
                return env[n]
            if self.peek("("):
                self.next()
                if n in ("while", "loop"):
                    return self.joint(n, env)
                if n == "lam":
                    e, j = dict(env), 0
                    while True:
                        e[self.next()[1]] = ("arg", j)
                        j += 1
                        if not self.peek(","):
                            break
                        self.next()
                    self.next(":")
                    body = self.expr(e)
                    self.next(")")
                    return ("Q", "lam", EMPTY, ("none",), 0, body, T)
                if n in ("exists", "all", "find", "findidx", "rfindidx", "sortpos", "collect", "fold", "mapped", "count"):
                    return self.quant(n, env)
                xs = self.args(env)
                return self.sp.apply(n, xs)
            if self.peek("!") and self.toks[self.i + 1][0] == "num" or self.peek("!") and self.toks[self.i + 1][1].startswith("cap"):
                self.next()
                i = self.next()[1]
                self.next("(")
                xs = self.args(env)
                return ("mut", n, int(i) if i.isdigit() else i, tuple(xs))
            if self.peek("{") and n[0].isupper():
                self.next()
                fs = []
                while not self.peek("}"):
                    f = self.next()[1]
                    self.next(":")
                    fs.append((f, self.expr(env)))
                    if self.peek(","):
                        self.next()
                self.next("}")
                adt, var = self.sp.variant(n)
                order = self.sp.fields(adt, var)
                d = dict(fs)
                if order and set(order) == set(d):
                    fs = [(f, d[f]) for f in order]
                return ("agg", adt, var, tuple(fs))
            try:
                adt, var = self.sp.variant(n)
                if not self.sp.fields(adt, var):
                    return ("agg", adt, var, ())
            except KeyError:
                pass
            return ("k", n)
        raise SyntaxError("unexpected %s %s" % (k, v))

    def joint(self, n, env):
        """while(a = i, b = j; cond: na, nb)   and   loop(a = i, b = j; e in s: na, nb): the tuple of final values"""
        names, inits = [], []
        while True:
            names.append(self.next()[1])
            self.next("=")
            inits.append(self.expr(env))
            if not self.peek(","):
                break
            self.next()
        self.next(";")
        self.sp.nq += 1
        d = 1000 + self.sp.nq
        e = dict(env)
        for j, v in enumerate(names):
            e[v] = ("acc", d, j)
        src, cond = None, T
        if n == "loop":
            v = self.next()[1]
            if not self.peek("in"):
                raise SyntaxError("in expected")
            self.next()
            src = self.expr(env)
            e[v] = ("elem", src, d)
        else:
            cond = self.expr(e)
        self.next(":")
        nxt = [self.expr(e)]
        while self.peek(","):
            self.next()
            nxt.append(self.expr(e))
        self.next(")")
        return ("Q", "joint", ("tup", tuple(inits)), src if src is not None else ("none",), d, ("tup", tuple(nxt)), cond)

    def quant(self, n, env):
        init = EMPTY
        if n == "fold":
            init = self.expr(env)
            self.next(";")
        v = self.next()[1]
        iv = None
        if self.peek("@"):
            self.next()
            iv = self.next()[1]
        self.next("=") if False else None
        if not self.peek("in"):
            raise SyntaxError("in expected")
        self.next()
        src = self.expr(env)
        self.next(":")
        self.sp.nq += 1
        d = 1000 + self.sp.nq
        e = dict(env)
        e[v] = ("elem", src, d)
        if iv:
            e[iv] = ("ei", src, d)
        if n == "fold":
            e["acc"] = ("acc", d)
        body = self.expr(e)
        guard = T
        if self.peek("|"):
            self.next()
            guard = self.expr(e)
        self.next(")")
        return ("Q", n, init, src, d, body, guard)


def mkand(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T:
        return a
    return ("and", a, b)


def mkor(a, b):
    if a == T or b == T:
        return T
    if a == F:
        return b
    if b == F:
        return a
    return ("or", a, b)


def has_ite(t):
    return any(isinstance(u, tuple) and u and u[0] in ("ite", "Q", "arith", "rel", "proj") for u in walk(t))


def proj_ite(a, e):
    if a[0] in ("ite", "Q"):
        return ("proj", a, e)
    return project(a, e)


class Spec:
    """name resolution + evaluation of spec expressions"""

    def __init__(self, prog, interp):
        self.P = prog
        self.I = interp
        self.nq = 0
        self.C = Canon(prog)
        self.macros = {}

    def variant(self, n):
        if n in ("Some", "None"):
            return "Option", n
        if n in ("Ok", "Err"):
            return "Result", n
        if "::" in n:
            a, v = n.rsplit("::", 1)
            if a in self.P.adts and any(x[0] == v for x in self.P.adts[a]["variants"]):
                return a, v
            raise KeyError(n)
        if n in self.P.adts and len(self.P.adts[n]["variants"]) == 1:
            return n, self.P.adts[n]["variants"][0][0]
        raise KeyError(n)

    def fields(self, adt, var):
        if adt in ("Option", "Result"):
            return [] if var == "None" else ["0"]
        for n, d, fs in self.P.adts[adt]["variants"]:
            if n == var:
                return [f[0] for f in fs]

    def apply(self, n, xs):
        if n in self.macros:
            params, body = self.macros[n]
            return P_(body, self).expr(dict(zip(params, xs)))
        if n == "eq":
            return ("eqq", xs[0], xs[1]) if any(map(has_ite, xs)) else self.I.equal(*xs)
        if n == "PI":
            from fractions import Fraction
            return ("c", Fraction("3.141592653589793" if getattr(self.P, "f64", False) else "3.1415927"))
        if n == "len":
            return ("call", "len", tuple(xs)) if has_ite(xs[0]) else mklen(xs[0])
        if n == "min" or n == "max":
            return self.minmax(n, xs)
        try:
            adt, v = self.variant(n)
            fs = self.fields(adt, v)
            if adt in ("NotNan", "OrderedFloat"):
                return xs[0]
            return ("agg", adt, v, tuple(zip(fs, xs)))
        except KeyError:
            pass
        if n == "idiv":
            return ("op", "IDiv") + tuple(xs)
        if n == "rangei":
            return ("call", "RangeInclusive", tuple(xs))
        if n == "repeat":
            if xs[1][0] == "c" and xs[1][1] <= 16:
                return ("arr", (xs[0],) * xs[1][1])
            return ("repeat",) + tuple(xs)
        if n == "reme":
            return ("op", "RemE") + tuple(xs)
        if n == "rem":
            return ("op", "Rem") + tuple(xs)
        if n in ("INF", "NINF"):
            return ("c", "inf" if n == "INF" else "-inf")
        if n in ("FMAX", "FMIN"):
            from fractions import Fraction
            m = 17976931348623157 * 10 ** 292 if getattr(self.P, "f64", False) else Fraction("3.4028235e38")
            m = int(m)
            return ("c", m if n == "FMAX" else -m)
        if n in ("range",):
            return ("range",) + tuple(xs)
        if n in ("zip", "chain", "rev", "slice"):
            return (n,) + tuple(xs)
        if n == "iter":
            return ("iter", xs[0], ())
        if n == "ord":
            return ("ord",) + tuple(xs)
        if n == "once":
            return ("once",) + tuple(xs)
        if n == "rep":
            return ("rep", xs[0], xs[1][1] if len(xs) > 1 and xs[1][0] == "c" else None)
        if n == "idx":
            return ("idx", xs[0])
        return ("call", n, tuple(xs))

    def minmax(self, n, xs):
        a, b = xs
        if not (has_ite(a) or has_ite(b)):
            return models.minmax(n, a, b)
        return ("ite", cmp(a, b, "<=") if n == "min" else cmp(a, b, "=>"), a, b) if not (has_ite(a) or has_ite(b)) else ("ite", ("rel", a, b, "<=" if n == "min" else "=>"), a, b)

    def parse(self, text, env=None):
        p = P_(text, self)
        t = p.expr(dict(env or {}))
        if p.peek()[0] != "end":
            raise SyntaxError("trailing: %s" % (p.toks[p.i:p.i + 5],))
        return t

    # ---- evaluation into rows
    def rows(self, st, t):
        """[(state, closed term)] : decide every conditional of t under st"""
        out = []
        work = [(st, t)]
        n = 0
        while work:
            s, u = work.pop()
            n += 1
            if n > 4000:
                raise TooComplex("spec rows")
            u = self.reduce(u, {})[0]
            w = self.first(u)
            if w is None:
                out.append((s, u))
                continue
            if w[0] == "ite":
                for s2, b in self.decide(s, w[1]):
                    work.append((s2, subst(u, w, w[2] if b else w[3])))
            elif w[0] == "rel":
                work.append((s, subst(u, w, cmp(w[1], w[2], w[3]))))
            elif w[0] == "eqq":
                work.append((s, subst(u, w, self.I.equal(w[1], w[2]))))
            elif w[0] == "proj":
                work.append((s, subst(u, w, project(w[1], w[2]))))
            elif w[0] == "arith":
                f = {"+": add, "-": sub, "*": mul, "/": div}[w[1]]
                work.append((s, subst(u, w, f(w[2], w[3]))))
            elif w[0] == "Q":
                work.append((s, subst(u, w, self.quantrows(w))))
        return out

    def reduce(self, t, memo):
        """(t with every operation on decided operands carried out, whether nothing is left to decide)"""
        if not isinstance(t, (tuple, frozenset)) or not t:
            return t, True
        r = memo.get(t)
        if r is not None:
            return r
        if isinstance(t, frozenset):
            xs = [self.reduce(x, memo) for x in t]
            r = (frozenset(x for x, _ in xs), all(b for _, b in xs))
        elif t[0] == "Q":
            r = (t, False)
        elif t[0] == "ite":
            r = (("ite", self.reduce(t[1], memo)[0], t[2], t[3]), False)
        else:
            xs = [self.reduce(x, memo) if isinstance(x, (tuple, frozenset)) else (x, True) for x in t]
            ok = all(b for _, b in xs)
            u = tuple(x for x, _ in xs)
            if ok and u[0] in ("rel", "arith", "proj", "eqq"):
                if u[0] == "rel":
                    u = cmp(u[1], u[2], u[3])
                elif u[0] == "eqq":
                    u = self.I.equal(u[1], u[2])
                elif u[0] == "proj":
                    u = project(u[1], u[2])
                else:
                    u = {"+": add, "-": sub, "*": mul, "/": div}[u[1]](u[2], u[3])
            r = (u, ok)
        memo[t] = r
        return r

    def first(self, t):
        """innermost-first conditional outside quantifier bodies"""
        if not isinstance(t, tuple) or not t:
            if isinstance(t, frozenset):
                for x in t:
                    r = self.first(x)
                    if r is not None:
                        return r
            return None
        if t[0] == "Q":
            r = self.first(t[2]) or self.first(t[3])
            return r if r is not None else t
        if t[0] == "ite":
            r = self.first(t[1])
            return r if r is not None else t
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                r = self.first(x)
                if r is not None:
                    return r
        if t[0] in ("rel", "arith", "proj", "eqq"):
            return t
        return None

    def quantrows(self, q):
        _, n, init, src, d, body, guard = q
        st = St()
        if n in ("exists", "all", "find", "findidx", "rfindidx", "sortpos"):
            if n == "all":
                body = not_(body) if body[0] != "ite" else ("ite", body, F, T)
            rows = set()
            for s, b in self.decide(st, body):
                if b:
                    rows.add(frozenset(s.facts.items()))
            r = ("exists" if n == "all" else n, src, frozenset(rows))
            return not_(r) if n == "all" else r
        rows = set()
        if n == "lam":
            return ("lam", frozenset((frozenset(s.facts.items()), v) for s, v in self.rows(st, body)))
        if n == "joint":
            stops = set()
            for s, b in self.decide(st, guard):
                if b:
                    for s2, v in self.rows(s, body):
                        rows.add((frozenset(s2.facts.items()), v[1]))
                else:
                    stops.add(frozenset(s.facts.items()))
            return ("tup", tuple(joint_terms(list(init[1]), list(rows), None if src == ("none",) else src, d, list(stops))))
        for s, b in self.decide(st, guard):
            if not b:
                rows.add((frozenset(s.facts.items()), NOELEM if n == "collect" else ("acc", d) if n == "fold" else ("elem", src, d)))
                continue
            for s2, v in self.rows(s, body):
                rows.add((frozenset(s2.facts.items()), v))
        if n == "collect":
            return mkcollect(init, src, frozenset(rows), d)
        if n == "fold":
            return ("fold", init, src, frozenset(rows))
        if n == "mapped":
            return ("mapped", src, frozenset(rows))
        raise SyntaxError(n)

    def decide(self, st, cond):
        out = []
        for s, t in self.rows(st, cond) if has_ite(cond) or any(isinstance(u, tuple) and u and u[0] == "eqq" for u in walk(cond)) else [(st, cond)]:
            t = self.C.canon(t)
            em = empties_of(s.facts)
            out += self.I.decide(s, self.C.drop_empty(t, em) if em else t)
        return out


# ------------------------------------------------------------------ linear feasibility of comparison facts
def eqsubst(items):
    """use the linear equalities among comparison facts to rewrite the others"""
    items = [(k[1], v) for k, v in items if k[0] == "cmp"]
    done = []
    for _ in range(6):
        for i, (p, v) in enumerate(items):
            if v != "=":
                continue
            ms = poly(p)
            pick = None
            for m, x in ms:
                if len(m) == 1 and m[0][1] == 1:
                    rest = frompoly(tuple((m2, -x2 / x) for m2, x2 in ms if m2 != m))
                    if not occurs(m[0][0], rest):
                        pick = (m[0][0], rest)
                        break
            if pick:
                done.append(items[i])
                items = [(subst(q, *pick), w) for j, (q, w) in enumerate(items) if j != i]
                break
        else:
            break
    return items + done


def feasible(facts):
    em = empties_of(facts)
    if em and any(v is True and k[0] == "b" and k[1][0] == "exists" and k[1][1] in em for k, v in facts.items()):
        return False
    if not feasible_(list(facts.items())):
        return False
    it = [(k, v) for k, v in facts.items() if k[0] == "cmp"]
    if any(v == "=" for _, v in it):
        return feasible_([(("cmp", p), v) for p, v in eqsubst(it)])
    return True


def feasible_(facts):
    cons = []  # (coeffs dict, const, op) meaning sum + const op 0, op in <,<=,=
    n = 0
    for k, v in facts:
        if k[0] != "cmp":
            continue
        co = {}
        const = Fraction(0)
        for m, x in poly(k[1]):
            if m == ():
                const = x
            else:
                co[m] = x
        if v == "<":
            cons.append((co, const, "<"))
        elif v == "<=":
            cons.append((co, const, "<="))
        elif v == "=":
            cons.append((co, const, "="))
        elif v == ">":
            cons.append(({m: -x for m, x in co.items()}, -const, "<"))
        elif v == "=>":
            cons.append(({m: -x for m, x in co.items()}, -const, "<="))
        n += 1
    # known non-negative atoms
    ms = {m for co, _, _ in cons for m in co}
    for m in ms:
        if all(e % 2 == 0 or nonneg_atom(x) for x, e in m):
            cons.append(({m: Fraction(-1)}, Fraction(0), "<="))
    # split equalities
    work = []
    for co, c0, op in cons:
        if op == "<" and co and all(x.denominator == 1 for x in co.values()) and c0.denominator == 1 and all(e > 0 and canon.int_atom(x) for m in co for x, e in m):
            c0, op = c0 + 1, "<="       # integers
        if op == "=":
            work.append((co, c0, "<="))
            work.append(({m: -x for m, x in co.items()}, -c0, "<="))
        else:
            work.append((co, c0, op))
    if len(work) > 60:
        return True
    for m in sorted(ms, key=key):
        pos, negs, rest = [], [], []
        for co, c0, op in work:
            x = co.get(m, 0)
            (pos if x > 0 else negs if x < 0 else rest).append((co, c0, op))
        for a in pos:
            for b in negs:
                fa, fb = -b[0][m], a[0][m]
                co = {}
                for q, x in a[0].items():
                    co[q] = co.get(q, 0) + fa * x
                for q, x in b[0].items():
                    co[q] = co.get(q, 0) + fb * x
                co = {q: x for q, x in co.items() if x != 0}
                rest.append((co, a[1] * fa + b[1] * fb, "<" if "<" in (a[2], b[2]) else "<="))
        seen = {}
        for co, c0, op in rest:
            kk = (tuple(sorted(co.items(), key=key)), c0, op)
            seen[kk] = (co, c0, op)
        work = list(seen.values())
        if len(work) > 400:
            return True
    for co, c0, op in work:
        if not co:
            if op == "<" and not c0 < 0:
                return False
            if op == "<=" and not c0 <= 0:
                return False
    return True


UNSIGNED = {"fields": frozenset(), "elems": frozenset(), "params": frozenset()}


def nonneg_atom(x):
    if x[0] == "call":
        return x[1] in ("len", "abs", "sqrt")
    if x[0] in ("ei", "idx", "findidx", "eibv", "sortpos"):
        return True
    if x[0] == "f":
        if x[1][0] == "as" and x[1][1][0] == "call" and x[1][1][1].startswith("[T]::binary_search"):
            return True
        return x[2] in UNSIGNED["fields"]
    if x[0] == "p":
        return x[1] in UNSIGNED["params"]
    if x[0] == "ix" and x[1][0] == "f":
        return x[1][2] in UNSIGNED["elems"]
    return False


canon.NONNEG.append(nonneg_atom)


def pinned(facts):
    """integers that the comparisons confine to a single value: x > 0 and x - 1 <= 0 gives x = 1"""
    lo, hi = {}, {}
    for k, v in facts.items():
        if k[0] != "cmp" or v not in ("<", "<=", ">", "=>") or not canon.int_poly(k[1]):
            continue
        co, c0 = {}, Fraction(0)
        for m, x in poly(k[1]):
            if m == ():
                c0 = x
            else:
                co[m] = x
        if not co:
            continue
        g = frompoly(tuple(sorted(co.items(), key=key)))
        n = neg(g)
        d = 1 if v in ("<", ">") else 0
        if v in ("<", "<="):        # g <= -c0 - d
            hi[g] = min(hi.get(g, -c0 - d), -c0 - d)
            lo[n] = max(lo.get(n, c0 + d), c0 + d)
        else:                       # g >= -c0 + d
            lo[g] = max(lo.get(g, -c0 + d), -c0 + d)
            hi[n] = min(hi.get(n, c0 - d), c0 - d)
        if all(x > 0 for x in co.values()):
            lo[g] = max(lo.get(g, Fraction(0)), Fraction(0))
            hi[n] = min(hi.get(n, Fraction(0)), Fraction(0))
    return [(g, lo[g]) for g in lo if g in hi and lo[g] == hi[g]]


def is_unsigned(t):
    return t is not None and t[0] == "o" and t[1] in ("usize", "u8", "u16", "u32", "u64", "u128")


# library calls that are not interpreted but are known to leave elements out: never the same as taking all of them
DROPPING = re.compile(r"(^|::)(unique|unique_by|dedup|dedup_by|dedup_by_key|step_by|truncate|duplicates|duplicates_by|split_off|drain_filter|extract_if)$|(SlotMap|HashMap|IndexMap)::retain$")
UNKNOWN_HEADS = {"lv", "unk", "undef", "sel", "mref", "bot", "choice", "rows"}


class Contract:
    def __init__(self, fn):
        self.fn = fn
        self.bound = []
        self.lets = []
        self.posts = []
        self.frames = []
        self.given = []
        self.panic = None
        self.group = None
        self.note = ""
        self.opts = {}
        self.holes = []
        self.events = None
        self.allow = set()
        self.where = ""


def parse_all(d):
    """every contract file of a directory -> [(contract, macros)]"""
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".con"):
            cons, macros = parse_file(os.path.join(d, f))
            out += [(c, macros) for c in cons]
    return out


def parse_file(path, common=False):
    """contract file -> [Contract], macros"""
    out = []
    macros = {}
    sets = {}
    cpath = os.path.join(os.path.dirname(os.path.abspath(path)), "common.con")
    if os.path.basename(path) != "common.con" and os.path.exists(cpath):
        _, m0, s0 = parse_file(cpath, True)
        macros.update(m0)
        sets.update(s0)
    cur = None
    pend = None
    group = None
    lines = open(path).read().split("\n")
    stmts = []
    for i, l in enumerate(lines):
        l = re.sub(r"(^|\s)//.*$", "", l).rstrip()
        if not l.strip():
            continue
        if l[0] in " \t" and l.strip() and stmts and l.startswith("      "):
            stmts[-1][1] += " " + l.strip()
        else:
            stmts.append([i + 1, l.strip()])
    for ln, s in stmts:
        w, _, rest = s.partition(" ")
        rest = rest.strip()
        if w == "set":
            n, _, v = rest.partition("=")
            acc = []
            for x in v.split(","):
                x = x.strip()
                acc += sets.get(x, [x]) if x else []
            sets[n.strip()] = acc
        elif w == "def":
            m = re.match(r"(\w+)\(([^)]*)\)\s*=\s*(.*)$", rest)
            macros[m.group(1)] = ([x.strip() for x in m.group(2).split(",") if x.strip()], m.group(3))
        elif w == "group":
            group = rest
        elif w == "fn":
            cur = Contract(rest)
            cur.group = group
            cur.where = "%s:%d" % (path.rsplit("/", 1)[-1], ln)
            out.append(cur)
        elif w == "bound":
            for x in rest.split(","):
                x = x.strip()
                cur.bound += sets.get(x, [x])
        elif w == "let":
            n, _, v = rest.partition("=")
            cur.lets.append((n.strip(), v.strip()))
        elif w == "some":
            cur.holes.append(rest)
        elif w == "post":
            l, _, r = rest.partition(" = ")
            cur.posts.append((l.strip(), r.strip()))
        elif w == "frame":
            l, _, r = rest.partition(":")
            cur.frames.append((l.strip(), [x.strip() for x in r.split(",") if x.strip()]))
        elif w == "given":
            cur.given.append(rest)
        elif w == "panic":
            cur.panic = rest
        elif w == "note":
            cur.note = rest
        elif w == "opt":
            a, _, b = rest.partition("=")
            cur.opts[a.strip()] = b.strip()
        elif w == "allow":
            cur.allow |= {x.strip() for x in rest.split(",")}
        else:
            raise SyntaxError("%s:%d: %s" % (path, ln, s))
    return (out, macros, sets) if common else (out, macros)


def shaped(t):
    return isinstance(t, frozenset) or isinstance(t, tuple) and any(h in UNKNOWN_HEADS or h in ("fold", "collect", "jfold", "dd", "call", "mut", "exists", "find", "findidx", "choice") for h in heads(t))


def parting(a, b):
    """the places where two terms of the same outline differ"""
    if a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and b and (a[0] == b[0] or not isinstance(a[0], str)) \
            and not (a[0] in ("call", "mut") and a[1] != b[1]):
        for x, y in zip(a, b):
            yield from parting(x, y)
    else:
        yield a, b


def restrict(t, at, v, memo):
    """t where the test `at` came out as v"""
    if not isinstance(t, tuple):
        return t
    r = memo.get(t)
    if r is None:
        if len(t) == 3 and t[0] == "dd" and t[1] == at:
            r = next((x for w, x in t[2] if w == v), BOT)
            r = restrict(r, at, v, memo)
        elif len(t) == 3 and t[0] == "dd":
            arms = tuple((w, restrict(x, at, v, memo)) for w, x in t[2])
            r = arms[0][1] if len({x for _, x in arms}) == 1 else ("dd", t[1], arms)
        else:
            r = tuple(restrict(x, at, v, memo) for x in t)
        memo[t] = r
    return r


class Witness:
    """looks for one case in which both sides are fully understood and differ; cases that panic or cannot be reached are passed over"""

    def __init__(self, known):
        self.known, self.left = known, 4000

    def differ(self, a, e, facts):
        self.left -= 1
        if self.left < 0 or a == e:
            return False
        if a == BOT or e == BOT:
            return False
        ta, te = (isinstance(x, tuple) and len(x) == 3 and x[0] == "dd" for x in (a, e))
        if ta or te:
            at = (a if ta else e)[1]
            arms = {w for x, d in ((a, ta), (e, te)) if d and x[1] == at for w, _ in x[2]}
            if not self.known(at):
                return False
            for w in sorted(arms, key=str):
                f2 = dict(facts)
                if at in f2 and f2[at] != w:
                    continue
                f2[at] = w
                try:
                    if not feasible(f2):
                        continue
                except Exception:
                    return False
                if self.differ(restrict(a, at, w, {}), restrict(e, at, w, {}), f2):
                    return True
            return False
        if isinstance(a, tuple) and isinstance(e, tuple) and a and e and len(a) == len(e) and (a[0] == e[0] or not isinstance(a[0], str)) \
                and not (a[0] in ("call", "mut") and a[1] != e[1]) and a[0] not in ("n", "c", "p", "bv", "accv", "acc"):
            return any(self.differ(x, y, facts) for x, y in zip(a, e))
        return self.known(a) and self.known(e)


def heads(t):
    return {u[0] for u in walk(t) if isinstance(u, tuple) and u and isinstance(u[0], str)}


class Checker:
    """decides contracts against the summaries of the current tree"""

    def __init__(self, prog, contracts=()):
        self.P = prog
        uns, oth = set(), set()
        for a in prog.adts.values():
            for v in a["variants"]:
                for f in v[2]:
                    (uns if is_unsigned(f[1]) else oth).add(f[0])
        UNSIGNED["fields"] = frozenset(uns - oth)
        uns, oth = set(), set()
        for a in prog.adts.values():
            for v in a["variants"]:
                for f in v[2]:
                    if f[1] and f[1][0] == "adt" and f[1][1] == "Vec" and len(f[1]) > 2 and f[1][2]:
                        (uns if is_unsigned(f[1][2][0]) else oth).add(f[0])
        UNSIGNED["elems"] = frozenset(uns - oth)
        PRESERVES.clear()
        for con in contracts:
            fn = prog.fn(con.fn)
            if fn is None or con.given:
                continue
            for root, allowed in con.frames:
                r = root[1:]
                t = fn.locals[int(r) + 1]
                while t[0] == "ref":
                    t = t[2]
                if t[0] == "adt" and t[1] in prog.adts and prog.adts[t[1]]["kind"] == "struct":
                    keep = {f[0] for f in prog.adts[t[1]]["variants"][0][2]} - set(allowed)
                    PRESERVES[(con.fn, int(r))] = frozenset(keep)

    def check(self, con, macros):
        """-> dict(status, paths, clauses, violations[], undecided[])"""
        res = {"fn": con.fn, "group": con.group, "paths": 0, "clauses": 0, "violations": [], "undecided": [], "where": con.where}
        fn = self.P.fn(con.fn)
        if fn is None:
            res["undecided"].append("function not found: " + con.fn)
            return res
        for b in con.bound:
            if self.P.fn(b) is None and ("::" in b and self.P.adts.get(b.split("::")[0], {}).get("local") or "::" not in b and b[0].islower()):
                res["undecided"].append("boundary function not found: " + b)
                return res
        w = self.reshaped(con, macros)
        if w:
            res["undecided"].append(w)
            return res
        UNSIGNED["params"] = frozenset(str(i) for i in range(fn.argc) if is_unsigned(fn.locals[i + 1]))
        I = Interp(self.P, boundary=con.bound, max_paths=int(con.opts.get("max_paths", 3000)), max_steps=int(con.opts.get("max_steps", 150000)))
        sp = Spec(self.P, I)
        sp.macros = macros
        I.blur = sp.C.blur = {a.rpartition(":")[0].strip(): {int(i) for i in a.rpartition(":")[2].split("+")} for a in con.opts.get("blur", "").split(",") if a}
        sp.C.ptypes = {str(i): fn.locals[i + 1] for i in range(fn.argc)}
        try:
            tenv = {}
            if "self" in con.opts:
                if con.opts["self"] not in self.P.adts:
                    raise KeyError(con.opts["self"])
                tenv["Self"] = ("adt", con.opts["self"], ())
                sp.C.ptypes = {k: subst(v, ("param", "Self"), tenv["Self"]) for k, v in sp.C.ptypes.items()}
            paths = I.summarize(con.fn, tenv=tenv, force=True)
        except TooComplex as e:
            res["undecided"].append("summary too complex: %s" % e)
            return res
        res["file"] = "%s:%s" % (fn.file, fn.line)
        res["visited"] = sorted(I.visited)
        try:
            env = {n: ("hole", n) for n in con.holes}
            for n, v in con.lets:
                env[n] = sp.parse(v, env)
            posts = [(l, sp.parse(r, env)) for l, r in con.posts]
            givens = [sp.parse(g, env) for g in con.given]
            panic = sp.parse(con.panic, env) if con.panic else None
        except KeyError as e:
            res["undecided"].append("vocabulary changed: %s" % e)
            return res
        vocab = {u[1] for t in [x for _, x in posts] + givens + ([panic] if panic else []) for u in walk(t) if isinstance(u, tuple) and len(u) > 1 and u[0] in ("call", "mut") and isinstance(u[1], str)}
        self.bad_calls = {c_ for c_ in I.opaque_calls if c_ not in con.bound and c_ not in vocab and c_ not in con.allow and not DROPPING.search(c_)}
        miss = self.missing_fields(fn, con, posts)
        if miss:
            res["undecided"].append("field not found: " + ", ".join(miss))
            return res
        # split boolean results
        if any(l == "ret" for l, _ in posts) and fn.locals[0] == ("o", "bool"):
            paths = I.bool_paths(paths)
        for p in paths:
            if p.outcome == "panic" and panic is None:
                continue
            states = self.canon_facts(sp, p.facts)
            for g in givens:
                states = [s2 for s in states for s2, b in sp.decide(s, g) if b]
            states = [s for s in states if feasible(s.facts)]
            if not states:
                continue
            res["paths"] += 1
            if p.outcome == "panic":
                for s in states:
                    if any(isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") for k in s.facts for u in walk(k)):
                        continue        # raised in the middle of a loop
                    for s2, b in sp.decide(s.fork(), panic):
                        res["clauses"] += 1
                        if not b and feasible(s2.facts):
                            self.report(res, con, p, s2, "panic", "no panic here", "panics", [])
                continue
            if panic is not None:
                ok = []
                for s in states:
                    for s2, b in sp.decide(s.fork(), panic):
                        if b and feasible(s2.facts):
                            res["clauses"] += 1
                            self.report(res, con, p, s2, "panic", "panics", "returns", [])
                        elif not b:
                            ok.append(s)
                            break
                states = ok
            for s in states:
                for l, spec in posts:
                    res["clauses"] += 1
                    act = self.place(p, l)
                    if act == ("other",):       # a clause about the payload of the other variant
                        continue
                    if act is None:
                        res["undecided"].append("no such place: " + l)
                        continue
                    (self.compare_some if con.holes else self.compare)(res, con, p, s.fork(), l, spec, act, sp)
                for root, allowed in con.frames:
                    self.frame(res, con, p, s, root, allowed, sp, fn)
        if res["paths"] == 0 and not res["undecided"]:
            res["undecided"].append("no feasible path")
        return res

    def reshaped(self, con, macros):
        """why the contract no longer applies: it speaks about items that are gone or have another type or signature"""
        P = self.P
        if con.fn in P.resigned:
            return "signature changed: " + con.fn
        if not (P.gone_fns or P.resigned or P.gone_fields or P.retyped):
            return None
        todo = [r for _, r in con.posts] + [l for l, _ in con.posts] + [v for _, v in con.lets] + list(con.given) + ([con.panic] if con.panic else [])
        text, seen = "\n".join(str(t) for t in todo), set()
        while True:
            more = [m for m in macros if m not in seen and re.search(r"\b%s\(" % re.escape(m), text)]
            if not more:
                break
            seen |= set(more)
            text += "\n" + "\n".join(str(macros[m]) for m in more)
        for n in P.gone_fns | P.resigned:
            if n in text and re.search(r"(?<![\w:])" + re.escape(n) + r"(?![\w:])", text) or n in con.bound:
                return "function not found or with another signature: " + n
        for n in P.gone_fields | P.retyped:
            if re.search(r"(\.%s\b|\b%s\s*:(?!:))" % (re.escape(n), re.escape(n)), text):
                return "field removed or of another type: " + n
        return None

    def canon_facts(self, sp, facts, start=None):
        """branch facts with canonical keys; compound facts are split into cases"""
        states = [start.fork() if start is not None else St()]
        for k, v in sorted(facts.items(), key=lambda kv: kv[0][0] != "cmp"):
            if k[0] == "exh":
                continue
            ck0 = sp.C.canon(k)
            nxt = []
            for s in states:
                em = empties_of(s.facts)
                ck = sp.C.drop_empty(ck0, em) if em else ck0
                if ck[0] == "b" and ck[1][0] == "eq" and (ck[1][1][0] in ("n", "c") and not isinstance(ck[1][1][1], str) or ck[1][2][0] in ("n", "c") and not isinstance(ck[1][2][1], str)):
                    for s2, b in sp.I.decide(s, cmp(ck[1][1], ck[1][2], "=")):
                        if b == v:
                            nxt.append(s2)
                    continue
                if ck == ck0 or ck[0] == "is":
                    pass
                elif ck[0] == "b" and ck[1] in (T, F):
                    if (ck[1] == T) == v:
                        nxt.append(s)
                    continue
                if ck[0] == "b":
                    for s2, b in sp.I.decide(s, ck[1]):
                        if b == v:
                            nxt.append(s2)
                elif ck[0] == "cmp":
                    t = cmp(ck[1], ("c", 0), v)
                    for s2, b in sp.I.decide(s, t):
                        if b:
                            nxt.append(s2)
                else:
                    x = ck[1]
                    if x[0] == "agg":
                        if x[2] in v:
                            nxt.append(s)
                        continue
                    cur = s.facts.get(ck)
                    w = v if cur is None else v & cur
                    if w:
                        s.facts[ck] = w
                        nxt.append(s)
            states = nxt
            if len(states) > 200:
                raise TooComplex("fact cases")
        return [s for s in states if feasible(s.facts)]

    def missing_fields(self, fn, con, posts):
        out = []
        for l, _ in posts:
            if l.startswith("$"):
                root, *fs = l.split(".")
                if not fs:
                    continue
                t = fn.locals[int(root[1:]) + 1] if root[1:].isdigit() and int(root[1:]) < fn.argc else None
                while t is not None and t[0] == "ref":
                    t = t[2]
                if t is not None and t[0] == "adt" and t[1] in self.P.adts:
                    f0 = fs[0].split("#")[0]
                    names = {f[0] for v in self.P.adts[t[1]]["variants"] for f in v[2]}
                    if f0 not in names and "#" not in root:
                        out.append(t[1] + "." + f0)
        return out

    def place(self, p, l):
        if l == "ret":
            return p.ret
        if " is " in l:
            x = self.place(p, l.split(" is ")[0].strip())
            return None if x is None or x[0] != "agg" or len(x) != 4 else tobool(x[2] == l.split("::")[-1].strip())
        root, *fs = re.split(r"[.]", l)
        path = []
        parts = root[1:].split("#")
        r = parts[0]
        for v in parts[1:]:
            path.append(("as", v))
        for f in fs:
            q = f.split("#")
            path.append(("f", q[0]))
            for v in q[1:]:
                path.append(("as", v))
        base = p.ret if root.split("#")[0] == "ret" else p.store.get(r)
        if base is None:
            return None
        if path and path[0][0] == "as" and base[0] == "agg" and len(base) == 4 and base[2] != path[0][1]:
            return ("other",)
        return readpath(base, tuple(path))

    def frame(self, res, con, p, st, root, allowed, sp, fn):
        r = root[1:]
        base = p.store.get(r)
        if base is None:
            return
        t = fn.locals[int(r) + 1]
        while t[0] == "ref":
            t = t[2]
        if t[0] != "adt" or t[1] not in self.P.adts:
            return
        for f in self.P.adts[t[1]]["variants"][0][2]:
            if f[0] in allowed or (t[1], f[0]) in self.P.extra:
                continue
            res["clauses"] += 1
            act = project(base, ("f", f[0]))
            self.compare(res, con, p, st.fork(), root + "." + f[0], ("f", ("p", r), f[0]), act, sp)

    def compare_some(self, res, con, p, st, l, spec, act, sp):
        """the clause holds for some value of the hole: whatever a search loop arrived at"""
        hole = ("hole", con.holes[0])
        if not occurs(hole, spec):
            return self.compare(res, con, p, st, l, spec, act, sp)
        cands = []
        for t in walk(act):
            if isinstance(t, tuple) and t and t[0] in ("jf", "lv") and t not in cands:
                cands.append(t)
        tried = []
        for t in cands[:8]:
            r = {"violations": [], "undecided": [], "clauses": 0, "paths": 0, "fn": res["fn"], "file": res.get("file"), "where": res["where"]}
            s2 = st.fork()      # how the search ended does not matter for the clause
            s2.facts = {k: v for k, v in s2.facts.items() if not any(isinstance(u, tuple) and u and u[0] in ("jfold", "lv") for u in walk(k))}
            self.compare(r, con, p, s2, l, spec, subst(act, t, hole), sp)
            if not r["violations"] and not r["undecided"]:
                return
            tried.append(r)
        if tried and all(r["violations"] and not r["undecided"] for r in tried):
            best = min(tried, key=lambda r: len(str(r["violations"])))
            res["violations"] += best["violations"]
        else:
            res["undecided"].append("%s: no value of the search explains the result" % l)

    def compare(self, res, con, p, st, l, spec, act, sp):
        cact = sp.C.canon(act)
        for s, e in sp.rows(st, spec):
            ce = sp.C.canon(e)
            ca, ce = (sp.C.known(sp.C.assume(x, s.facts), s.facts) for x in (cact, ce))
            for s2, a2, e2 in self.resolve(sp, s, ca, ce):
                if self.equal(s2.facts, a2, e2):
                    continue
                if not feasible(s2.facts):
                    continue
                self.mismatch(res, con, p, s2, l, e2, a2, sp, 0)

    def mismatch(self, res, con, p, st, l, e, a, sp, depth):
        """before reporting, split the remaining min/max/abs terms into cases"""
        m = self.pick_minmax((a, e, tuple(st.facts)))
        if m is None or depth > 10:
            if not hasattr(sp, "unfolder"):
                sp.unfolder = Unfolder(self, sp)
            if sp.unfolder.same(self, st, a, e):
                return
            self.report(res, con, p, st, l, show(e), show(a), [a, e])
            return
        if m[0] == "call":          # abs
            x = m[2][0]
            alts = [(x, [cmp(x, ("c", 0), "=>")]), (neg(x), [cmp(x, ("c", 0), "<")])]
        else:
            alts = []
            for i, x in enumerate(m[1]):
                alts.append((x, [cmp(x, y, "<=" if m[0] == "min" else "=>") for j, y in enumerate(m[1]) if j != i]))
        for x, conds in alts:
            facts = {}
            for k, v in st.facts.items():
                facts.setdefault(subst(k, m, x), []).append(v)
            states = [St()]
            for k, vs in facts.items():
                for v in vs:
                    states = [s2 for s in states for s2 in self.canon_facts(sp, {k: v}, s)]
            for c in conds:
                states = [s2 for s in states for s2, b in sp.I.decide(s, c) if b]
            a2, e2 = sp.C.canon(subst(a, m, x)), sp.C.canon(subst(e, m, x))
            for s in states:
                if not feasible(s.facts):
                    continue
                for s2, a3, e3 in self.resolve(sp, s, a2, e2):
                    if self.equal(s2.facts, a3, e3) or not feasible(s2.facts):
                        continue
                    self.mismatch(res, con, p, s2, l, e3, a3, sp, depth + 1)
            if res["violations"]:
                return

    def pick_minmax(self, t):
        best = None
        for u in walk(t):
            if isinstance(u, tuple) and (len(u) == 2 and u[0] in ("min", "max") and isinstance(u[1], tuple) and 2 <= len(u[1]) <= 4
                                         or len(u) == 3 and u[0] == "call" and u[1] == "abs"):
                if any(isinstance(w, tuple) and w and w[0] in ("bv", "elembv", "accv") for w in walk(u)):
                    continue
                if best is None or tsize(u) < tsize(best):
                    best = u
        return best

    def resolve(self, sp, s, a, e):
        if a in (T, F) and e in (T, F):
            return [(s, a, e)]
        if is_boolish(a) and is_boolish(e):
            out = []
            for s1, b1 in sp.I.decide(s, a):
                for s2, b2 in sp.I.decide(s1, e):
                    out.append((s2, tobool(b1), tobool(b2)))
            return out
        return [(s, a, e)]

    def equal(self, facts, a, b):
        if a == b:
            return True
        a, b = align(a, b)
        subs = []
        for w in {t for t in walk((a, b)) if isinstance(t, tuple) and len(t) == 4 and t[0] == "find" and isinstance(t[2], int) and t[3][0] == "dd" and t[3][1][0] == "is"}:
            # the element that was found is one for which the searched value is that unit variant
            ok = [v for v, k in w[3][2] if k == T]
            if len(ok) == 1 and all(k in (T, F) for _, k in w[3][2]):
                for g in {t for t in walk((a, b)) if isinstance(t, tuple) and len(t) == 4 and t[0] == "agg" and t[2] == ok[0] and t[3] == ()}:
                    subs.append((subst(w[3][1][1], ("bv", w[2]), w), g))
        for g, c in pinned(facts):
            for m, x in poly(g):
                if len(m) == 1 and m[0][1] == 1:
                    rest = frompoly(tuple((m2, -x2 / x) for m2, x2 in poly(g) if m2 != m))
                    if not occurs(m[0][0], rest):
                        subs.append((m[0][0], add(rest, frac(Fraction(c) / x))))
                        break
        for k, v in facts.items():
            if k[0] == "cmp" and v == "=":
                ms = poly(k[1])
                for m, x in ms:
                    if len(m) == 1 and m[0][1] == 1:
                        rest = frompoly(tuple((m2, -x2 / x) for m2, x2 in ms if m2 != m))
                        if not occurs(m[0][0], rest):
                            subs.append((m[0][0], rest))
                            break
            elif k[0] == "b" and v and k[1][0] == "eq":
                subs.append((k[1][1], k[1][2]))
            elif k[0] == "b":
                subs.append((k[1], tobool(v)))
            elif k[0] == "is" and len(v) == 1 and list(v)[0] in ("None",):
                subs.append((k[1], NONE))
            elif k[0] == "is" and len(v) == 1:
                (var,) = v
                x = k[1]
                # unit variants are their own value; payload variants re-wrap
                for t in [t for t in walk((a, b)) if isinstance(t, tuple) and len(t) == 3 and t[0] == "upd" and t[1] == x and all(len(p) == 2 and p[0] == ("as", var) for p, _ in t[2])]:
                    fs = {p[1][1]: v for p, v in t[2]}
                    for g in walk((a, b)):
                        if isinstance(g, tuple) and len(g) == 4 and g[0] == "agg" and g[2] == var and set(fs) <= {f for f, _ in g[3]}:
                            w = ("agg", g[1], var, tuple((f, fs.get(f, project(project(x, ("as", var)), ("f", f)))) for f, _ in g[3]))
                            a, b = subst(a, t, w), subst(b, t, w)
                            break
                for t in walk((a, b)):
                    if isinstance(t, tuple) and len(t) == 4 and t[0] == "agg" and t[2] == var:
                        w = ("agg", t[1], var, tuple((f, project(project(x, ("as", var)), ("f", f))) for f, _ in t[3]))
                        a, b = subst(a, w, x), subst(b, w, x)
        for o, n in subs:
            a, b = subst(a, o, n), subst(b, o, n)
        if deq(a, b):
            return True
        if ("n" in (a[0], b[0]) or any(x[0] == "call" and x[1] == "sqrt" for x in (a, b))) and any(isinstance(u, tuple) and u[:2] == ("call", "sqrt") for u in walk((a, b))):
            # equal square roots: compare the squares
            k = cmp(a, b, "=")
            return k == T or k[0] == "cmp" and facts.get(("cmp", k[1])) == "=" and k[2] == "="
        return False

    def understood(self, t, allow):
        extra = {f for _, f in self.P.extra}
        for u in walk(t):
            if isinstance(u, tuple) and u and isinstance(u[0], str):
                if extra and len(u) == 3 and u[0] == "f" and u[2] in extra:
                    return "reads the new field " + u[2]
                if u[0] in UNKNOWN_HEADS and u[0] not in allow and not (u[0] == "mref"):
                    return "contains " + u[0]
                if u[0] in ("call", "mut") and len(u) > 1 and u[1] in self.bad_calls:
                    return "unmodelled call " + str(u[1])
        return None

    def report(self, res, con, p, st, l, exp, act, terms):
        plain = wrapped = False
        if len(terms) == 2:
            pruned = terms
            if any("bot" in heads(t) for t in terms):
                pruned = [prune_bot(t) for t in terms]
                if self.equal(st.facts, *pruned):
                    return
            # the two sides have the same outline (same loops and cases) and differ in plain values only
            pairs = list(parting(*pruned))
            plain = bool(pairs) and not any(shaped(x) or shaped(y) for x, y in pairs)
            # one side applies one more function to what the other side has
            wrapped = bool(pairs) and all(isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 3 and x[0] == y[0] == "call" and x[1] != y[1] and self.P.fn(x[1]) is not None and self.P.fn(y[1]) is not None and
                                                 any(u[0] == "call" and u[1] == w[1] for z, w in ((x, y), (y, x)) for u in z[2] if isinstance(u, tuple) and len(u) == 3) for x, y in pairs)
            plain = plain or wrapped
            loops = any(u == canon.FOREVER for t in terms for u in walk(t))
            if loops or not plain and any(self.understood(t, con.allow) for t in terms):
                plain = Witness(lambda t: self.understood(t, con.allow - {"bot"}) is None and not any(u == canon.FOREVER for u in walk(t))).differ(pruned[0], pruned[1], st.facts)
            if loops and not plain:
                res["undecided"].append("%s: loops that cannot be compared [%s]" % (l, "; ".join(diff(terms[1], terms[0]))[:600]))
                return
        for t in terms + [k for k in st.facts]:
            w = self.understood(t, con.allow)
            if w and not (plain and w.startswith("contains ") and t in terms) and not (wrapped and w == "contains bot"):
                res["undecided"].append("%s: %s [%s]" % (l, w, "; ".join(diff(terms[1], terms[0]))[:600] if len(terms) == 2 else ""))
                return
        res["violations"].append({
            "fn": con.fn, "file": res.get("file"), "contract": con.where, "clause": l,
            "expected": exp[:1500], "actual": act[:1500],
            "path": [showfact(k, v)[:300] for k, v in st.facts.items()],
            "diff": "; ".join(diff(terms[1], terms[0]))[:600] if len(terms) == 2 else "",
            "note": con.note})


class Unfolder:
    """second opinion on a mismatch: replaces the calls the two sides do not share by what the callees compute"""

    def __init__(self, ck, sp):
        self.P, self.C, self.cache = ck.P, sp.C, ck.__dict__.setdefault("unfold_cache", {})

    def summary(self, name):
        if name not in self.cache:
            self.cache[name] = None
            fn = self.P.fn(name) if isinstance(name, str) else None
            if fn is not None and not fn.name.startswith("<closure"):
                try:
                    I = Interp(self.P, boundary=(), max_paths=24, max_steps=4000)
                    ps = [p for p in I.summarize(name, force=True) if p.outcome != "panic"]
                    ren = lambda t: subst_all(t, {("p", str(i)): ("p", "#%d" % i) for i in range(fn.argc)})
                    rows = [(frozenset((ren(k), v) for k, v in p.facts.items() if k[0] != "exh"), ren(p.ret) if p.ret is not None else None, {i: ren(p.store[str(i)]) for i in range(fn.argc) if str(i) in p.store}) for p in ps]
                    if rows and len(rows) <= 6 and sum(tsize(x[1]) for x in rows if x[1] is not None) < 3000:
                        self.cache[name] = (fn.argc, rows)
                except Exception:
                    pass
        return self.cache[name]

    def expand(self, u):
        s = self.summary(u[1])
        if s is None:
            return None
        args = u[2] if u[0] == "call" else u[3]
        if len(args) != s[0]:
            return None
        m = {("p", "#%d" % i): x for i, x in enumerate(args)}
        out = []
        for fs, ret, store in s[1]:
            v = ret if u[0] == "call" else store.get(u[2])
            if v is None:
                return None
            out.append((frozenset((self.C.canon(subst_all(k, m)), w) for k, w in fs), self.C.canon(subst_all(v, m))))
        if len(out) == 1:
            return out[0][1]
        return self.C.dd(out, BOT)

    def same(self, ck, st, a, e):
        for _ in range(4):
            ca, ce = ({u for u in walk(t) if isinstance(u, tuple) and (len(u) == 3 and u[0] == "call" or len(u) == 4 and u[0] == "mut") and isinstance(u[1], str) and self.P.fn(u[1]) is not None} for t in (a, e))
            only = (ca ^ ce)
            only = [u for u in only if not any(w is not u and w in only and occurs(w, u) for w in only)]     # innermost first
            if not only:
                return False
            hit = False
            for u in only:
                x = self.expand(u)
                if x is None or tsize(x) > 4000:
                    continue
                hit = True
                a, e = self.C.canon(subst(a, u, x)), self.C.canon(subst(e, u, x))
            if not hit or tsize(a) + tsize(e) > 30000:
                return False
            if ck.equal(st.facts, a, e):
                return True
        return False


def subst_all(t, m):
    for k, v in m.items():
        if occurs(k, t):
            t = subst(t, k, v)
    return t


def diff(e, a, out=None):
    """the innermost places where two terms differ"""
    out = [] if out is None else out
    if e == a or len(out) > 2:
        return out
    if isinstance(e, tuple) and isinstance(a, tuple) and len(e) == len(a) and e and e[0] == a[0]:
        n = len(out)
        for x, y in zip(e, a):
            if x != y:
                diff(x, y, out)
        if len(out) > n:
            return out
    sh = lambda t: show(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else repr(t)
    out.append("%s <> %s" % (sh(e)[:200], sh(a)[:200]))
    return out


def is_boolish(t):
    return t in (T, F) or t[0] in ("cmp", "is", "not", "and", "or", "eq", "exists") or t[0] in ("call", "p", "f") and False
