"""Term domain: value-numbering terms with a polynomial normal form for arithmetic."""
import hashlib
from fractions import Fraction
from functools import lru_cache

T = ("T",)
F = ("F",)
UNIT = ("tup", ())


def c(v):
    return ("c", v)


_KEYS = {}      # id -> (term, key, size): terms share subterms heavily, so keys are built from the keys of the parts


def _key(t):
    if not isinstance(t, (tuple, frozenset)):
        return repr(t), 1
    e = _KEYS.get(id(t))
    if e is not None:
        return e[1], e[2]
    ps = [_key(x) for x in t]
    n = sum(p[1] for p in ps) + 1
    if isinstance(t, frozenset):
        k = "{" + ",".join(sorted(p[0] for p in ps)) + "}"
    else:
        k = "(" + ",".join(p[0] for p in ps) + ")"
    if len(k) > 400:
        k = k[:60] + "~" + hashlib.blake2b(k.encode(), digest_size=12).hexdigest()
    if len(_KEYS) > 2000000:
        _KEYS.clear()
    _KEYS[id(t)] = (t, k, n)
    return k, n


def key(t):
    return _key(t)[0]


def tobool(b):
    return T if b else F


# ---------- polynomials
def num_const(s):
    """constant from MIR: int or float literal string"""
    if isinstance(s, bool):
        return tobool(s)
    if isinstance(s, int):
        return ("c", s)
    if s in ("inf", "-inf", "NaN"):
        return ("c", s)
    fr = Fraction(s)
    return frac(fr)


def frac(fr):
    return ("c", int(fr) if fr.denominator == 1 else fr)


def is_num(t):
    return t[0] == "c" and not isinstance(t[1], str)


@lru_cache(maxsize=None)
def poly(t):
    """dict-as-tuple monomial -> coeff"""
    if t[0] == "c" and not isinstance(t[1], str):
        return (((), Fraction(t[1])),) if t[1] != 0 else ()
    if t[0] == "n":
        return t[1]
    if t == T:
        return (((), Fraction(1)),)
    if t == F:
        return ()
    return ((((t, 1),), Fraction(1)),)


def _norm(d):
    items = [(m, v) for m, v in d.items() if v != 0]
    items.sort(key=lambda x: key(x[0]))
    return tuple(items)


def frompoly(p):
    if not p:
        return ("c", 0)
    if len(p) == 1:
        m, v = p[0]
        if m == ():
            return frac(v)
        if v == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("n", p)


def add(a, b, sign=1):
    d = dict(poly(a))
    for m, v in poly(b):
        d[m] = d.get(m, Fraction(0)) + sign * v
    return frompoly(_norm(d))


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return frompoly(tuple((m, -v) for m, v in poly(a)))


def _mulmono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda y: key(y)))


def mul(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 400:
        return ("op", "Mul", a, b)
    d = {}
    for m1, v1 in pa:
        for m2, v2 in pb:
            m = _mulmono(m1, m2)
            d[m] = d.get(m, Fraction(0)) + v1 * v2
    r = frompoly(_norm(d))
    if r[0] == "n":
        for m, v in r[1]:
            for x, e in m:
                if abs(e) >= 2 and x[0] == "call" and x[1] == "sqrt":
                    # sqrt(a)^2 = a
                    k, o = divmod(abs(e), 2)
                    rest = frompoly(((tuple(y for y in m if y[0] != x) + (((x, 1 if e > 0 else -1),) if o else ()), v),))
                    rest = frompoly(_norm({tuple(sorted(mm, key=lambda y: key(y))): vv for mm, vv in poly(rest)}))
                    others = frompoly(tuple(mv for mv in r[1] if mv[0] != m))
                    for _ in range(k):
                        rest = mul(rest, x[2][0]) if e > 0 else div(rest, x[2][0])
                    return add(others, rest)
    return r


@lru_cache(maxsize=None)
def sign_definite(t):
    """1/-1 if the quadratic form t is positive/negative semidefinite (or t is a square root), 0 if unknown"""
    if t[0] == "call" and t[1] in ("sqrt", "abs", "len"):
        return 1
    p = poly(t)
    atoms, form = [], {}
    for m, v in p:
        es = [(x, e) for x, e in m]
        if sum(e for _, e in es) != 2 or any(e < 0 for _, e in es):
            return 0
        xs = [x for x, e in es for _ in range(e)]
        for x in xs:
            if x not in atoms:
                atoms.append(x)
        form[frozenset(xs)] = v
    if not atoms or len(atoms) > 8:
        return 0
    n = len(atoms)
    for sg in (1, -1):
        M = [[sg * (form.get(frozenset([atoms[i], atoms[j]]), Fraction(0)) / (1 if i == j else 2)) for j in range(n)] for i in range(n)]
        ok = True
        for k in range(n):
            if M[k][k] < 0 or M[k][k] == 0 and any(M[k][j] != 0 for j in range(k, n)):
                ok = False
                break
            if M[k][k] == 0:
                continue
            for i in range(k + 1, n):
                f = M[i][k] / M[k][k]
                for j in range(k, n):
                    M[i][j] -= f * M[k][j]
        if ok:
            return sg
    return 0


def clear_denominators(t):
    """(t', flipped): t' has the sign of t (or its opposite if flipped) wherever t is defined, and no denominators"""
    fl = False
    for _ in range(6):
        neg_ = {}
        for m, v in poly(t):
            for x, e in m:
                if e < 0:
                    neg_[x] = min(neg_.get(x, 0), e)
        if not neg_:
            return t, fl
        x = min(neg_, key=key)
        e = -neg_[x]
        if e % 2:
            sg = sign_definite(x)
            if sg == 0:
                e += 1
            elif sg < 0:
                fl = not fl
        out = ("c", 0)
        for m, v in poly(t):
            d = dict(m)
            k = d.pop(x, 0) + e
            r = frompoly(((tuple(sorted(d.items(), key=lambda y: key(y))), v),))
            for _i in range(k):
                r = mul(r, x)
            out = add(out, r)
        if any(u[0] == "op" for m, _ in poly(out) for u, _e in m if isinstance(u, tuple)) and not any(u[0] == "op" for m, _ in poly(t) for u, _e in m):
            return t, fl
        t = out
    return t, fl


def div(a, b):
    pb = poly(b)
    if len(pb) == 0:
        return ("op", "Div", a, b)
    if len(pb) == 1:
        m, v = pb[0]
        inv = (tuple((x, -e) for x, e in m), 1 / v)
        return mul(a, frompoly((inv,)))
    # normalise the denominator by its leading coefficient
    lead = pb[0][1]
    nb = frompoly(tuple((m, v / lead) for m, v in pb))
    return mul(mul(a, frac(1 / lead)), ("n", ((((nb, -1),), Fraction(1)),)))


ALL3 = "<=>"


def flip(s):
    return "".join(sorted({"<": ">", ">": "<", "=": "="}[x] for x in s))


def compl(s):
    return "".join(x for x in ALL3 if x not in s)


def square_both(p, s):
    """sqrt(a) against a quantity that is not negative (radii are not): a against its square"""
    if not any(x[0] == "call" and x[1] == "sqrt" for m, _ in p for x, _e in m):
        return None
    for m, _ in p:
        for x, e in m:
            if e < 0 or e % 2 and not (x[0] == "call" and x[1] in ("sqrt", "abs", "len") or x[0] == "f" and x[2] == "radius"):
                return None
    P = tuple((m, v) for m, v in p if v > 0)
    N = tuple((m, -v) for m, v in p if v < 0)
    for side in (P, N):
        if len(side) > 1 and any(x[0] == "call" and x[1] == "sqrt" for m, _ in side for x, _e in m):
            return None
    a, b = frompoly(P), frompoly(N)
    return cmp(mul(a, a), mul(b, b), s)


def parity(q, s):
    """x % 2 against 0 or 1, for counts: the one boolean odd(x)"""
    at = [m for m, _ in q if m != ()]
    if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1:
        return None
    x = at[0][0][0]
    if x[0] != "op" or x[1] not in ("Rem", "RemE") or x[3] != ("c", 2):
        return None
    c = sum(v for m, v in q if m == ())
    counts = x[2][0] in ("count", "fold") or x[2][:2] == ("call", "len")
    if c == 0 and (s in ("=", "<>") or counts):
        odd, even = ">" in s, "=" in s
    elif c == -1 and counts:
        odd, even = "=" in s, "<" in s
    else:
        return None
    o = ("call", "odd", (x[2],))
    return T if odd and even else F if not odd and not even else o if odd else ("not", o)


def cmp(a, b, s):
    """boolean term: relation of a to b is in s (subset of '<=>')"""
    s = "".join(sorted(s))
    for x, y, fl in ((a, b, False), (b, a, True)):
        pass
    if a == b:
        return tobool("=" in s)
    if a[0] == "c" and isinstance(a[1], str) or b[0] == "c" and isinstance(b[1], str):
        if a[0] == "c" and b[0] == "c":
            va = float(a[1]) if isinstance(a[1], str) else a[1]
            vb = float(b[1]) if isinstance(b[1], str) else b[1]
            if va != va or vb != vb:
                return F
            return tobool(("<" if va < vb else ">" if va > vb else "=") in s)
    p = poly(sub(a, b))
    if any(e < 0 for m, _ in p for _x, e in m):
        t, fl = clear_denominators(frompoly(p))
        p = poly(t)
        s = flip(s) if fl else s
    if not p:
        return tobool("=" in s)
    if len(p) == 1 and p[0][0] == ():
        v = p[0][1]
        return tobool(("<" if v < 0 else ">") in s)
    r = square_both(p, s)
    if r is not None:
        return r
    # leading = last non-constant monomial in the order
    lead = None
    for m, v in p:
        if m != ():
            lead = v
            break
    q = tuple((m, v / abs(lead)) for m, v in p)
    if lead < 0:
        q = tuple((m, -v) for m, v in q)
        s = flip(s)
    k = frompoly(q)
    r = parity(q, s)
    if r is not None:
        return r
    # lengths/abs/sq are never negative
    s2 = s
    if s2 == "":
        return F
    if s2 == ALL3:
        return T
    return ("cmp", k, s2)


def lt(a, b):
    return cmp(a, b, "<")


def not_(t):
    if t == T:
        return F
    if t == F:
        return T
    if t[0] == "cmp":
        return ("cmp", t[1], compl(t[2]))
    if t[0] == "not":
        return t[1]
    return ("not", t)


# ---------- structure
def agg(adt, variant, fields):
    return ("agg", adt, variant, tuple(fields))


def some(x):
    return ("agg", "Option", "Some", (("0", x),))


NONE = ("agg", "Option", "None", ())


def tup(*xs):
    return ("tup", tuple(xs))


@lru_cache(maxsize=200000)
def subst_cached(t, old, new):
    if t == old:
        return new
    if isinstance(t, frozenset):
        return frozenset(subst_cached(y, old, new) if isinstance(y, (tuple, frozenset)) else y for y in t)
    if isinstance(t, tuple):
        if not t:
            return t
        r = tuple(subst_cached(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if r == t:
            return t
        return renorm(r)
    return t


def subst(t, old, new):
    return subst_cached(t, old, new)


def renorm(r):
    """re-normalise a rebuilt node (polynomials must be re-sorted / re-multiplied)"""
    if r and r[0] == "n" and len(r) == 2 and isinstance(r[1], tuple):
        acc = ("c", 0)
        for m, v in r[1]:
            t = frac(v)
            for x, e in m:
                for _ in range(abs(e)):
                    t = mul(t, x) if e > 0 else div(t, x)
            acc = add(acc, t)
        return acc
    if r and r[0] == "cmp" and len(r) == 3 and isinstance(r[1], tuple):
        return cmp(r[1], ("c", 0), r[2])
    return r


@lru_cache(maxsize=200000)
def _occ(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(_occ(y, x) for y in t if isinstance(y, (tuple, frozenset)))
    return False


def occurs(x, t):
    return _occ(t, x)


def walk(t):
    """every subterm; shared ones once"""
    st = [t]
    seen = set()
    while st:
        u = st.pop()
        yield u
        if isinstance(u, (tuple, frozenset)):
            for y in u:
                if isinstance(y, (tuple, frozenset)) and id(y) not in seen:
                    seen.add(id(y))
                    st.append(y)


def show(t, d=0):
    try:
        return show_(t, d)
    except Exception:
        return repr(t)


def show_(t, d=0):
    if d > 14:
        return "…"
    if isinstance(t, frozenset):
        return "{" + "; ".join(sorted(show(x, d + 1) for x in t)) + "}"
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    s = lambda x: show(x, d + 1)
    if not isinstance(k, str):
        if len(t) == 2 and isinstance(k, tuple) and k and k[0] in ("cmp", "is", "b") and not isinstance(t[1], tuple):
            if k[0] == "cmp":
                return s(k[1]) + " " + t[1] + " 0"
            if k[0] == "is":
                return s(k[1]) + " is " + "|".join(sorted(t[1]))
            return ("" if t[1] else "!") + s(k[1])
        return "<" + ", ".join(s(x) for x in t) + ">"
    if k == "T":
        return "true"
    if k == "F":
        return "false"
    if k == "c":
        return str(t[1])
    if k == "p":
        return "$" + str(t[1])
    if k == "f":
        return s(t[1]) + "." + str(t[2])
    if k == "as":
        return s(t[1]) + "#" + t[2]
    if k == "ix":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k == "n":
        out = []
        for m, v in t[1]:
            ms = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            out.append((str(v) + ("*" + ms if ms else "")) if v != 1 or not ms else ms)
        return "(" + " + ".join(out) + ")"
    if k == "cmp":
        return s(t[1]) + " " + t[2] + " 0"
    if k == "agg":
        return t[1] + ("::" + t[2] if t[2] != t[1] else "") + ("{" + ", ".join(f + ":" + s(v) for f, v in t[3]) + "}" if t[3] else "")
    if k == "tup":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    if k == "arr":
        return "[" + ", ".join(s(x) for x in t[1]) + "]"
    if k == "call":
        return t[1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if k == "mut":
        return t[1] + "!" + str(t[2]) + "(" + ", ".join(s(x) for x in t[3]) + ")"
    if k == "upd":
        return s(t[1]) + " with {" + ", ".join("".join("." + str(q[1] if q[0] != "ix" else s(q[1])) for q in p) + "=" + s(v) for p, v in t[2]) + "}"
    if k == "clo":
        return "|" + t[1].split("::", 2)[-1] + "|"
    if k == "is":
        return s(t[1]) + " is " + t[3]
    return k + "(" + ", ".join(s(x) if isinstance(x, (tuple, frozenset)) else str(x) for x in t[1:]) + ")"
