"""Abstract transfer functions of the library calls the code base uses (std, slotmap, itertools, ordered_float, rayon...)."""
from terms import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def E():
    return ("call", "emptyvec", ())


# ---------------- value-transparent wrappers
@model("Clone::clone", "Arc::new", "Box::new", "Arc::clone", "ToOwned::to_owned", "[T]::to_vec", "Deref::deref", "AsRef::as_ref", "Borrow::borrow",
       "Option::cloned", "Option::copied", "Option::as_ref", "Option::as_deref", "NotNan::into_inner", "NotNan::new_unchecked", "Vec::as_slice",
       "Arc::downgrade", "core::hint::must_use", "core::convert::identity", "Vec::into_boxed_slice", "Iterator::by_ref", "Iterator::peekable",
       "Cow::into_owned", "Rc::new", "Result::as_ref", "f32::clone", "core::mem::take_", "Box::into_inner", "core::hint::black_box",
       "Vec::as_ref", "ArrayBase<S, D>::iter", "ArrayBase<S, Dim<[usize; 1]>>::to_vec", "String::as_str", "alloc::boxed::box_assume_init_into_vec_unsafe", "[T]::into_vec")
def m_id(I, st, fr, args, info):
    a = args[0]
    if a[0] == "mref":
        a = I.load(st, a)
    return [(st, a)]


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Arc::make_mut")
def m_idmut(I, st, fr, args, info):
    return [(st, args[0])]


@model("core::slice::raw::from_ref")
def m_fromref(I, st, fr, args, info):
    return [(st, ("arr", (I.deepval(st, args[0]),)))]


@model("core::slice::raw::from_mut")
def m_frommut(I, st, fr, args, info):
    a = args[0]
    return [(st, ("mref", a[1], a[2] + (("slice1",),)) if a[0] == "mref" else ("arr", (a,)))]


@model("Into::into", "From::from")
def m_into(I, st, fr, args, info):
    # hand-written local From impls
    t = info["targs"]
    if info["tname"] == "Into::into" and len(t) >= 2:
        r = I.P.resolve_trait("From", "from", [t[1], t[0]])
        if r:
            return I.opaque(st, r[0].name, args, dict(info, target=r[0])) if r[0].name in I.boundary else I.call_fn(st, r[0], args, r[1], fr)
        if t[0] == t[1] or t[0][0] == "adt" and t[0][1] in ("NotNan", "OrderedFloat"):
            return [(st, args[0])]
        if t[1][0] == "adt" and t[1][1] in ("Arc", "Box", "Rc", "VecDeque", "Option", "NotNan") and t[1][1] != "Option":
            return [(st, I.load(st, args[0]))]
        if t[1][0] == "adt" and t[1][1] == "Option":
            return [(st, some(args[0]))]
    if info["tname"] == "From::from":
        if len(t) >= 2 and t[0] == t[1]:
            return [(st, args[0])]
        if t and t[0][0] == "adt" and t[0][1] in ("VecDeque", "Vec", "Arc", "Box"):
            a = I.load(st, args[0])
            return [(st, a)]
        if t and t[0][0] == "adt" and t[0][1] in ("Option",):
            return [(st, some(args[0]))]
    return None


@model("NotNan::new")
def m_notnan(I, st, fr, args, info):
    return [(st, ("agg", "Result", "Ok", (("0", I.load(st, args[0])),)))]


@model("Weak::upgrade")
def m_upgrade(I, st, fr, args, info):
    v = I.load(st, args[0])
    return [(st, some(v))]


@model("Arc::try_unwrap")
def m_tryunwrap(I, st, fr, args, info):
    return [(st, ("agg", "Result", "Ok", (("0", args[0]),)))]


@model("Default::default")
def m_default(I, st, fr, args, info):
    t = info["targs"][0] if info["targs"] else None
    if t:
        if t[0] == "adt" and t[1] in ("Vec", "VecDeque", "HashMap", "HashSet", "IndexSet", "String"):
            return [(st, E())]
        if t == ("o", "bool"):
            return [(st, F)]
        if t[0] == "o" and t[1][0] in "uif":
            return [(st, ("c", 0))]
        if t[0] == "adt" and t[1] == "Option":
            return [(st, NONE)]
        if t[0] == "adt" and t[1] in ("NotNan", "OrderedFloat"):
            return [(st, ("c", 0))]
        if t[0] == "array":
            r = m_default(I, st, fr, args, {**info, "targs": [t[1]]})
            n = t[2] if len(t) > 2 else None
            return [(st, ("rep", r[0][1], None))] if r else None
    return None


# ---------------- logging / formatting: no effect on the state
def noop(I, st, fr, args, info):
    return [(st, UNIT)]


for n in ("log::__private_api::log", "std::io::stdio::_print", "std::io::stdio::_eprint", "log::__private_api::loc"):
    MODELS[n] = noop


def fmtconst(I, st, fr, args, info):
    return [(st, ("call", "fmt", ()))]


for n in ("Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Argument::new_display", "Argument::new_debug", "Argument::new_upper_hex", "alloc::fmt::format", "log::max_level"):
    MODELS[n] = fmtconst


# ---------------- comparisons
REL = {"lt": "<", "le": "<=", "gt": ">", "ge": "=>"}


def scalar_ty(I, info):
    t = info["targs"][0] if info["targs"] else None
    while t is not None and t[0] == "ref":
        t = t[2]
    return t


def newtype(I, t, *xs):
    """derived ordering of a struct with one field is the ordering of that field"""
    from absint import project
    while t is not None and t[0] == "adt" and t[1] in I.P.adts and I.P.adts[t[1]].get("local"):
        r = I.P.resolve_trait("PartialOrd", "partial_cmp", [t, t])
        vs = I.P.adts[t[1]]["variants"]
        if not r or not r[0].exp or len(vs) != 1 or len(vs[0][2]) != 1:
            break
        f = vs[0][2][0]
        xs = tuple(project(x, ("f", str(f[0]))) for x in xs)
        t = f[1]
        while isinstance(t, tuple) and t and t[0] == "ref":
            t = t[2]
    return (t,) + tuple(xs)


def m_rel(I, st, fr, args, info):
    t = scalar_ty(I, info)
    if t is not None and t[0] == "adt" and t[1] in ("Level", "LevelFilter"):
        return [(st, F)]
    meth = info["tname"].split("::")[1]
    a, b = I.load(st, args[0]), I.load(st, args[1])
    t, a, b = newtype(I, t, a, b)
    if t is None or t[0] == "o" or t[0] == "adt" and t[1] in ("NotNan", "OrderedFloat"):
        return [(st, cmp(a, b, REL[meth]))]
    if t[0] == "adt":
        # via a hand-written partial_cmp
        r = I.P.resolve_trait("PartialOrd", "partial_cmp", [t, t])
        if r and not r[0].exp:
            out = []
            for o in I.call_fn(st, r[0], [a, b], r[1], fr) if r[0].name not in I.boundary else [("ret", st, ("call", r[0].name, (a, b)))]:
                if o[0] != "ret":
                    out.append(o)
                    continue
                for s, p in I.split_opt(o[1], o[2]):
                    if p is None:
                        out.append((s, F))
                        continue
                    want = {"lt": ["Less"], "le": ["Less", "Equal"], "gt": ["Greater"], "ge": ["Greater", "Equal"]}[meth]
                    cur = [s]
                    for w in want:
                        nxt = []
                        for s1 in cur:
                            for s2, yes in I.decide_is(s1, p, "Ordering", w):
                                if yes:
                                    out.append((s2, T))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                    for s1 in cur:
                        out.append((s1, F))
            return out
    return [(st, cmp(("call", "rank", (a,)), ("call", "rank", (b,)), REL[meth]))]


for x in REL:
    MODELS["PartialOrd::" + x] = m_rel


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(I, st, fr, args, info):
    t = scalar_ty(I, info)
    a, b = I.deepval(st, args[0]), I.deepval(st, args[1])
    ne = info["tname"].endswith("ne")
    if t is not None and t[0] == "adt":
        r = I.P.resolve_trait("PartialEq", "eq", [t, t])
        if r and not r[0].exp:
            out = []
            for o in I.call_fn(st, r[0], [a, b], r[1], fr):
                out.append((o[1], not_(o[2])) if o[0] == "ret" and ne else o)
            return out
    if a[0] == "ord" or b[0] == "ord":
        o, k = (a, b) if a[0] == "ord" else (b, a)
        if k[0] == "agg":
            r = cmp(o[1], o[2], {"Less": "<", "Equal": "=", "Greater": ">"}[k[2]])
            return [(st, not_(r) if ne else r)]
    r = I.relation(a, b, "<>" if ne else "=", t if t is not None else ("o", "usize"))
    if t is not None and t[0] in ("tup", "array", "slice"):
        r = I.equal(a, b)
        if a[0] == "tup" and b[0] == "tup":
            ts = [I.relation(x, y, "=", ("o", "?")) for x, y in zip(a[1], b[1])]
            ts = [x for x in ts if x != T]
            r = F if F in ts else T if not ts else ts[0] if len(ts) == 1 else ("and",) + tuple(sorted(ts, key=key))
        if ne:
            r = not_(r)
    return [(st, r)]


@model("core::ptr::eq", "Arc::ptr_eq")
def m_ptreq(I, st, fr, args, info):
    return [(st, I.equal(I.deepval(st, args[0]), I.deepval(st, args[1])))]


@model("Ord::cmp", "f32::total_cmp", "f64::total_cmp")
def m_cmp(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    t, a, b = newtype(I, scalar_ty(I, info), a, b)
    if t is not None and t[0] == "adt" and t[1] == "Reverse":
        a, b = project0(b), project0(a)
    if t is not None and t[0] == "o" and t[1] == "bool":
        out = []
        for s, x in I.decide(st, a):
            for s2, y in I.decide(s, b):
                out.append((s2, ("agg", "Ordering", "Less" if x < y else "Greater" if x > y else "Equal", ())))
        return out
    if is_num(a) and is_num(b):
        return [(st, ("agg", "Ordering", "Less" if a[1] < b[1] else "Greater" if a[1] > b[1] else "Equal", ()))]
    return [(st, ("ord", boolnum(a), boolnum(b)))]


@model("[T]::binary_search_by")
def m_bsearch(I, st, fr, args, info):
    """position that keeps a sorted slice sorted: sortpos(src, rows where the comparator says Less)"""
    from absint import SKIP, its_src, norm_src
    it = getiter(I, st, args[0], info)
    depth = st.ldepth
    base = dict(st.facts)
    s0 = st.fork()
    s0.ldepth = depth + 1
    rows, eqs = set(), set()
    for s, el in I.expand(s0, fr, it, depth, info["site"]):
        if el == SKIP:
            return None
        for o in I.call_value(s, fr, args[1], [el], info["site"]):
            if o[0] != "ret":
                continue
            for s2, b in I.decide_is(o[1], o[2], "Ordering", "Less"):
                if b:
                    rows.add(frozenset((k, v) for k, v in s2.facts.items() if base.get(k) != v))
                    continue
                for s3, e in I.decide_is(s2, o[2], "Ordering", "Equal"):
                    if e:
                        eqs.add(frozenset((k, v) for k, v in s3.facts.items() if base.get(k) != v))
    src, rws = norm_src(its_src(it), frozenset(rows), depth)
    src2, es = norm_src(its_src(it), frozenset(eqs), depth)
    pos = ("sortpos", src, rws)
    out = []
    for s, b in I.decide(st, ("exists", src2, es) if es else F):
        out.append((s, ("agg", "Result", "Ok" if b else "Err", (("0", pos),))))
    return out


def project0(x):
    if x[0] == "agg":
        return x[3][0][1]
    return ("f", x, "0")


def boolnum(a):
    if a == T:
        return ("c", 1)
    if a == F:
        return ("c", 0)
    return a


@model("PartialOrd::partial_cmp")
def m_pcmp(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    t, a, b = newtype(I, scalar_ty(I, info), a, b)
    return [(st, some(("ord", a, b)))]


@model("Ordering::reverse")
def m_ordrev(I, st, fr, args, info):
    a = I.load(st, args[0])
    if a[0] == "ord":
        return [(st, ("ord", a[2], a[1]))]
    if a[0] == "agg":
        v = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[a[2]]
        return [(st, ("agg", "Ordering", v, ()))]
    return None


@model("Ordering::then")
def m_ordthen(I, st, fr, args, info):
    a, b = args
    out = []
    for s, eq in I.decide_is(st, a, "Ordering", "Equal"):
        out.append((s, b if eq else a))
    return out


@model("Ordering::then_with")
def m_ordthenw(I, st, fr, args, info):
    a, b = args
    out = []
    for s, eq in I.decide_is(st, a, "Ordering", "Equal"):
        if eq:
            out += I.call_value(s, fr, b, [], info["site"])
        else:
            out.append((s, a))
    return out


def minmax(kind, a, b):
    if is_num(a) and is_num(b):
        return a if (a[1] <= b[1]) == (kind == "min") else b
    xs = set()
    for x in (a, b):
        if x[0] == kind:
            xs |= set(x[1])
        else:
            xs.add(x)
    # inf constants
    xs.discard(("c", "inf" if kind == "min" else "-inf"))
    if not xs:
        return a
    if len(xs) == 1:
        return next(iter(xs))
    return (kind, tuple(sorted(xs, key=key)))


for kind in ("min", "max"):
    def mk(kind):
        def f(I, st, fr, args, info):
            if len(args) != 2:
                return None
            return [(st, minmax(kind, I.load(st, args[0]), I.load(st, args[1])))]
        return f
    for n in ("f32::", "f64::", "Ord::", "core::cmp::", "Float::"):
        MODELS[n + kind] = mk(kind)


@model("Ord::clamp", "f32::clamp", "f64::clamp")
def m_clamp(I, st, fr, args, info):
    x, lo, hi = [I.load(st, a) for a in args]
    return [(st, minmax("min", minmax("max", x, lo), hi))]


# ---------------- arithmetic
def arith(op):
    def f(I, st, fr, args, info):
        t = scalar_ty(I, info)
        if t is not None and t[0] == "adt" and t[1] not in ("NotNan", "OrderedFloat", "Wrapping"):
            return None
        a, b = I.load(st, args[0]), I.load(st, args[1])
        return [(st, I.binop(op, a, b, t if t and t[0] == "o" else ("o", "f32")))]
    return f


for o, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
    MODELS["%s::%s" % (o, m)] = arith(o)

    def mka(o):
        ar = arith(o)

        def f(I, st, fr, args, info):
            r = ar(I, st, fr, args, info)
            if r is None:
                return None
            I.write(st, args[0][1], args[0][2], r[0][1])
            return [(st, UNIT)]
        return f
    MODELS["%sAssign::%s_assign" % (o, m)] = mka(o)


@model("Neg::neg")
def m_neg(I, st, fr, args, info):
    return [(st, neg(I.load(st, args[0])))]


@model("Not::not")
def m_not(I, st, fr, args, info):
    return [(st, not_(I.load(st, args[0])))]


def unary(name):
    def f(I, st, fr, args, info):
        a = I.load(st, args[0])
        if name == "abs":
            if is_num(a):
                return [(st, ("c", abs(a[1])))]
            p = poly(a)
            if p and p[0][1] < 0:
                a = neg(a)
        return [(st, ("call", name, (a,)))]
    return f


for n in ("abs", "sqrt", "ceil", "floor", "round", "is_finite", "is_nan", "sin", "cos", "tan", "atan2", "trunc", "signum", "exp", "ln", "to_bits"):
    for p in ("f32::", "f64::", "isize::", "i32::", "i64::", "Float::"):
        if n != "atan2":
            MODELS[p + n] = unary(n)


@model("isize::rem_euclid", "i32::rem_euclid", "i64::rem_euclid", "usize::rem_euclid", "f32::rem_euclid", "f64::rem_euclid")
def m_rem_euclid(I, st, fr, args, info):
    return [(st, ("op", "RemE", I.load(st, args[0]), I.load(st, args[1])))]


@model("f32::atan2", "f64::atan2")
def m_atan2(I, st, fr, args, info):
    return [(st, ("call", "atan2", (I.load(st, args[0]), I.load(st, args[1]))))]


@model("f32::sin_cos", "f64::sin_cos")
def m_sincos(I, st, fr, args, info):
    a = I.load(st, args[0])
    return [(st, tup(("call", "sin", (a,)), ("call", "cos", (a,))))]


@model("f32::powi", "f64::powi", "f32::powf", "f64::powf", "usize::pow", "Float::powi")
def m_powi(I, st, fr, args, info):
    a, n = I.load(st, args[0]), I.load(st, args[1])
    if is_num(n) and n[1] == int(n[1]) and 0 <= n[1] <= 4:
        r = ("c", 1)
        for _ in range(int(n[1])):
            r = mul(r, a)
        return [(st, r)]
    return [(st, ("call", "pow", (a, n)))]


@model("f32::mul_add", "f64::mul_add")
def m_fma(I, st, fr, args, info):
    a, b, c_ = [I.load(st, x) for x in args]
    return [(st, add(mul(a, b), c_))]


def PI(I):
    return Fraction("3.141592653589793" if getattr(I.P, "f64", False) else "3.1415927")


@model("f32::to_radians", "f64::to_radians")
def m_rad(I, st, fr, args, info):
    return [(st, mul(I.load(st, args[0]), ("c", PI(I) / 180)))]


@model("f32::to_degrees", "f64::to_degrees")
def m_deg(I, st, fr, args, info):
    return [(st, mul(I.load(st, args[0]), ("c", 180 / PI(I))))]


@model("bool::then", "bool::then_some")
def m_then(I, st, fr, args, info):
    out = []
    for s, b in I.decide(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif info["name"].endswith("then_some"):
            out.append((s, some(args[1])))
        else:
            for o in I.call_value(s, fr, args[1], [], info["site"]):
                out.append((o[1], some(o[2])) if o[0] == "ret" else o)
    return out


@model("core::mem::swap")
def m_swap(I, st, fr, args, info):
    a, b = args
    if a[0] == "mref" and b[0] == "mref":
        va, vb = I.load(st, a), I.load(st, b)
        I.write(st, a[1], a[2], vb)
        I.write(st, b[1], b[2], va)
        return [(st, UNIT)]
    return None


@model("core::mem::replace")
def m_replace(I, st, fr, args, info):
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], args[1])
    return [(st, v)]


@model("core::mem::take")
def m_take(I, st, fr, args, info):
    v = I.load(st, args[0])
    t = info["targs"][0] if info["targs"] else None
    d = NONE if t and t[0] == "adt" and t[1] == "Option" else F if t == ("o", "bool") else ("c", 0) if t and t[0] == "o" else E()
    I.write(st, args[0][1], args[0][2], d)
    return [(st, v)]


@model("core::mem::drop")
def m_drop(I, st, fr, args, info):
    return [(st, UNIT)]


# ---------------- Option / Result
def optcall(I, fr, info, s, f, args, wrap):
    out = []
    for o in I.call_value(s, fr, f, args, info["site"]):
        out.append((o[1], wrap(o[2])) if o[0] == "ret" else o)
    return out


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def m_unwrap(I, st, fr, args, info):
    out = []
    v = I.load(st, args[0])
    if v[0] == "agg":
        if v[2] == "Some":
            return [(st, v[3][0][1])]
        return [("panic", st, None)]
    fk = ("is", v)
    if fk in st.facts and "Some" not in st.facts[fk]:
        return [("panic", st, None)]
    st.facts[fk] = frozenset(["Some"])
    return [(st, payload(v, "Some"))]


def payload(v, var):
    if v[0] == "as" and v[2] == var:
        return ("f", v, "0")
    return ("f", ("as", v, var), "0")


@model("Result::unwrap", "Result::expect", "Result::unwrap_or_else_")
def m_runwrap(I, st, fr, args, info):
    v = I.load(st, args[0])
    if v[0] == "agg":
        if v[2] == "Ok":
            return [(st, v[3][0][1])]
        return [("panic", st, None)]
    st.facts[("is", v)] = frozenset(["Ok"])
    return [(st, payload(v, "Ok"))]


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_issome(I, st, fr, args, info):
    v = I.load(st, args[0])
    n = info["name"]
    adt, var = ("Option", "Some") if "Option" in n else ("Result", "Ok")
    negq = n.endswith(("is_none", "is_err"))
    if v[0] == "agg":
        r = tobool(v[2] == var)
    else:
        r = ("is", v, adt, var)
    return [(st, not_(r) if negq else r)]


@model("Option::as_mut", "Option::as_deref_mut")
def m_asmut(I, st, fr, args, info):
    a = args[0]
    if a[0] != "mref":
        return [(st, a)]
    out = []
    for s, p in I.split_opt(st, a):
        out.append((s, NONE if p is None else some(("mref", a[1], a[2] + (("as", "Some"), ("f", "0"))))))
    return out


def opt_model(name):
    def d(f):
        def g(I, st, fr, args, info):
            out = []
            a = args[0]
            for s, p in I.split_opt(st, a):
                out += f(I, s, fr, p, args, info)
            return out
        MODELS[name] = g
        return g
    return d


@opt_model("Option::map")
def _(I, s, fr, p, args, info):
    return [(s, NONE)] if p is None else optcall(I, fr, info, s, args[1], [p], some)


@opt_model("Option::and_then")
def _(I, s, fr, p, args, info):
    return [(s, NONE)] if p is None else optcall(I, fr, info, s, args[1], [p], lambda x: x)


@opt_model("Option::filter")
def _(I, s, fr, p, args, info):
    if p is None:
        return [(s, NONE)]
    out = []
    for o in I.call_value(s, fr, args[1], [p], info["site"]):
        if o[0] != "ret":
            out.append(o)
            continue
        for s2, b in I.decide(o[1], o[2]):
            out.append((s2, some(p) if b else NONE))
    return out


@opt_model("Option::unwrap_or")
def _(I, s, fr, p, args, info):
    return [(s, args[1] if p is None else p)]


@opt_model("Option::unwrap_or_default")
def _(I, s, fr, p, args, info):
    if p is not None:
        return [(s, p)]
    t = info["targs"][0]
    return MODELS["Default::default"](I, s, fr, [], {**info, "targs": [t]}) or [(s, ("call", "default", ()))]


@opt_model("Option::unwrap_or_else")
def _(I, s, fr, p, args, info):
    return optcall(I, fr, info, s, args[1], [], lambda x: x) if p is None else [(s, p)]


@opt_model("Option::map_or")
def _(I, s, fr, p, args, info):
    return [(s, args[1])] if p is None else optcall(I, fr, info, s, args[2], [p], lambda x: x)


@opt_model("Option::map_or_else")
def _(I, s, fr, p, args, info):
    return optcall(I, fr, info, s, args[1], [], lambda x: x) if p is None else optcall(I, fr, info, s, args[2], [p], lambda x: x)


@opt_model("Option::is_some_and")
def _(I, s, fr, p, args, info):
    return [(s, F)] if p is None else optcall(I, fr, info, s, args[1], [p], lambda x: x)


@opt_model("Option::is_none_or")
def _(I, s, fr, p, args, info):
    return [(s, T)] if p is None else optcall(I, fr, info, s, args[1], [p], lambda x: x)


@opt_model("Option::or")
def _(I, s, fr, p, args, info):
    return [(s, args[1] if p is None else some(p))]


@opt_model("Option::or_else")
def _(I, s, fr, p, args, info):
    return optcall(I, fr, info, s, args[1], [], lambda x: x) if p is None else [(s, some(p))]


@opt_model("Option::and")
def _(I, s, fr, p, args, info):
    return [(s, NONE if p is None else args[1])]


@opt_model("Option::ok_or")
def _(I, s, fr, p, args, info):
    return [(s, ("agg", "Result", "Err", (("0", args[1]),)) if p is None else ("agg", "Result", "Ok", (("0", p),)))]


@opt_model("Option::ok_or_else")
def _(I, s, fr, p, args, info):
    return optcall(I, fr, info, s, args[1], [], lambda x: ("agg", "Result", "Err", (("0", x),))) if p is None else [(s, ("agg", "Result", "Ok", (("0", p),)))]


@opt_model("Option::flatten")
def _(I, s, fr, p, args, info):
    return [(s, NONE if p is None else p)]


@opt_model("Option::iter_")
def _(I, s, fr, p, args, info):
    return None


@model("Option::take")
def m_otake(I, st, fr, args, info):
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], NONE)
    return [(st, v)]


@model("Option::replace")
def m_orep(I, st, fr, args, info):
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], some(args[1]))
    return [(st, v)]


@model("Option::insert", "Option::get_or_insert_with", "Option::get_or_insert")
def m_oins(I, st, fr, args, info):
    a = args[0]
    tgt = ("mref", a[1], a[2] + (("as", "Some"), ("f", "0")))
    if info["name"].endswith("::insert"):
        I.write(st, a[1], a[2], some(args[1]))
        return [(st, tgt)]
    out = []
    for s, p in I.split_opt(st, a):
        if p is None:
            if info["name"].endswith("_with"):
                for o in I.call_value(s, fr, args[1], [], info["site"]):
                    if o[0] == "ret":
                        I.write(o[1], a[1], a[2], some(o[2]))
                        out.append((o[1], tgt))
                    else:
                        out.append(o)
                continue
            I.write(s, a[1], a[2], some(args[1]))
        out.append((s, tgt))
    return out


@model("Result::unwrap_or_else", "Result::unwrap_or", "Result::ok", "Result::map", "Result::map_err", "Result::and_then")
def m_res(I, st, fr, args, info):
    out = []
    n = info["name"].split("::")[-1]
    for s, p in I.split_opt(st, args[0], "Result", "Ok"):
        v = I.load(s, args[0])
        if n == "ok":
            out.append((s, NONE if p is None else some(p)))
        elif n == "unwrap_or":
            out.append((s, args[1] if p is None else p))
        elif n == "unwrap_or_else":
            if p is None:
                e = v[3][0][1] if v[0] == "agg" else payload(v, "Err")
                out += I.call_value(s, fr, args[1], [e], info["site"])
            else:
                out.append((s, p))
        elif n == "map":
            if p is None:
                out.append((s, v))
            else:
                out += optcall(I, fr, info, s, args[1], [p], lambda x: ("agg", "Result", "Ok", (("0", x),)))
        elif n == "and_then":
            if p is None:
                out.append((s, v))
            else:
                out += optcall(I, fr, info, s, args[1], [p], lambda x: x)
        else:
            if p is None:
                e = v[3][0][1] if v[0] == "agg" else payload(v, "Err")
                out += optcall(I, fr, info, s, args[1], [e], lambda x: ("agg", "Result", "Err", (("0", x),)))
            else:
                out.append((s, ("agg", "Result", "Ok", (("0", p),))))
    return out


@model("Try::branch")
def m_branch(I, st, fr, args, info):
    t = scalar_ty(I, info)
    adt, yes = ("Option", "Some") if t and t[1] == "Option" else ("Result", "Ok")
    out = []
    for s, p in I.split_opt(st, args[0], adt, yes):
        if p is None:
            out.append((s, ("agg", "ControlFlow", "Break", (("0", I.load(s, args[0])),))))
        else:
            out.append((s, ("agg", "ControlFlow", "Continue", (("0", p),))))
    return out


@model("FromResidual::from_residual")
def m_resid(I, st, fr, args, info):
    t = scalar_ty(I, info)
    if t and t[1] == "Option":
        return [(st, NONE)]
    return [(st, I.load(st, args[0]))]


# ---------------- Vec / slices
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "HashMap::new", "HashSet::new", "String::new")
def m_vnew(I, st, fr, args, info):
    return [(st, E())]


@model("Vec::push", "VecDeque::push_back")
def m_push(I, st, fr, args, info):
    a = args[0]
    if a[0] != "mref":
        return None
    v = I.load(st, a)
    x = I.deepval(st, args[1])
    I.write(st, a[1], a[2], mkpush(v, x))
    return [(st, UNIT)]


def mkpush(v, x):
    if v == E():
        return ("arr", (x,))
    if v[0] == "arr":
        return ("arr", v[1] + (x,))
    return ("call", "push", (v, x))


@model("Vec::len", "[T]::len", "VecDeque::len", "SlotMap::len", "IndexSet::len", "ExactSizeIterator::len", "HashMap::len", "HashSet::len", "BTreeSet::len", "BTreeMap::len", "IndexMap::len", "BinaryHeap::len", "core::slice::len")
def m_len(I, st, fr, args, info):
    from absint import mklen
    v = I.load(st, args[0])
    if v[0] == "iter":
        return [(st, ("call", "iterlen", (v,)))]
    return [(st, mklen(v))]


@model("Vec::is_empty", "[T]::is_empty", "VecDeque::is_empty", "SlotMap::is_empty", "HashSet::is_empty", "HashMap::is_empty", "IndexSet::is_empty", "IndexMap::is_empty", "BTreeSet::is_empty", "BTreeMap::is_empty", "BinaryHeap::is_empty", "String::is_empty")
def m_isempty(I, st, fr, args, info):
    from absint import mklen
    return [(st, cmp(mklen(I.load(st, args[0])), ("c", 0), "="))]


@model("Vec::clear", "VecDeque::clear", "HashSet::clear", "HashMap::clear", "SlotMap::clear")
def m_clear(I, st, fr, args, info):
    I.write(st, args[0][1], args[0][2], E())
    return [(st, UNIT)]


@model("Vec::truncate")
def m_trunc(I, st, fr, args, info):
    n = I.load(st, args[1])
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], E() if n == ("c", 0) else ("call", "truncate", (v, n)))
    return [(st, UNIT)]


@model("Vec::remove", "Vec::swap_remove", "VecDeque::remove", "IndexSet::swap_remove_index")
def m_vremove(I, st, fr, args, info):
    from absint import index
    v = I.load(st, args[0])
    i = I.load(st, args[1])
    kind = "swap_remove" if "swap" in info["name"] else "remove"
    if i[0] == "findidx" and i[1] == v and all(len(f) == 1 and list(f)[0][0][0] == "cmp" and list(f)[0][1] == "=" and any(m[0][0][:2] == ("elem", v) for m, c in list(f)[0][0][1][1] if m and m[0][0]) for f in i[2]):
        kind = "remove"     # a collection of plain ids: their order carries no meaning
    if v[0] == "f" and v[2] in ("dynamic_hazards", "uncommitted_deregisters"):
        kind = "remove"     # the engine's hazards are a set keyed by their entity: their order carries no meaning
    I.write(st, args[0][1], args[0][2], ("call", kind, (v, i)))
    r = index(v, i)
    if info["name"].startswith("VecDeque"):
        r = some(r)
    return [(st, r)]


@model("Vec::insert")
def m_vinsert(I, st, fr, args, info):
    v = I.load(st, args[0])
    i = I.load(st, args[1])
    x = I.deepval(st, args[2])
    from absint import mklen
    I.write(st, args[0][1], args[0][2], mkpush(v, x) if i == mklen(v) else ("call", "insert", (v, i, x)))
    return [(st, UNIT)]


@model("Vec::pop")
def m_pop(I, st, fr, args, info):
    from absint import mklen
    v = I.load(st, args[0])
    if v[0] == "arr" and v[1]:
        I.write(st, args[0][1], args[0][2], ("arr", v[1][:-1]) if len(v[1]) > 1 else E())
        return [(st, some(v[1][-1]))]
    I.write(st, args[0][1], args[0][2], ("call", "pop", (v,)))
    return [(st, ("call", "last", (v,)))]


@model("VecDeque::pop_front")
def m_popf(I, st, fr, args, info):
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], ("call", "pop_front", (v,)))
    return [(st, ("call", "first", (v,)))]


@model("Vec::append")
def m_append(I, st, fr, args, info):
    v = I.load(st, args[0])
    w = I.load(st, args[1])
    I.write(st, args[0][1], args[0][2], ("call", "append", (v, w)))
    if args[1][0] == "mref":
        I.write(st, args[1][1], args[1][2], E())
    return [(st, UNIT)]


@model("Index::index")
def m_index(I, st, fr, args, info):
    from absint import project
    v, i = I.load(st, args[0]), I.load(st, args[1])
    if i[0] == "agg" and i[1].startswith("Range"):
        return [(st, slice_(v, i))]
    return [(st, project(v, ("ix", i)))]


def slice_(v, r):
    d = dict(r[3])
    lo = d.get("start", ("c", 0))
    hi = d.get("end")
    from absint import mklen
    if hi is None:
        hi = mklen(v)
    elif r[1] in ("RangeInclusive", "RangeToInclusive"):
        hi = add(hi, ("c", 1))
    if lo == ("c", 0) and hi == mklen(v):
        return v
    if v[0] == "slice":
        lo2, hi2 = add(v[2], lo), add(v[2], hi)
        return ("slice", v[1], lo2, hi2)
    return ("slice", v, lo, hi)


@model("IndexMut::index_mut")
def m_indexmut(I, st, fr, args, info):
    a, i = args[0], I.load(st, args[1])
    if a[0] != "mref":
        return None
    if i[0] == "agg" and i[1].startswith("Range"):
        return None
    return [(st, ("mref", a[1], a[2] + (("ix", i),)))]


@model("[T]::get", "Vec::get", "VecDeque::get")
def m_get(I, st, fr, args, info):
    from absint import project, mklen
    v, i = I.load(st, args[0]), I.load(st, args[1])
    out = []
    for s, b in I.decide(st, cmp(i, mklen(v), "<")):
        out.append((s, some(project(v, ("ix", i))) if b else NONE))
    return out


@model("[T]::get_mut", "Vec::get_mut")
def m_getmut(I, st, fr, args, info):
    from absint import mklen
    a, i = args[0], I.load(st, args[1])
    v = I.load(st, a)
    out = []
    for s, b in I.decide(st, cmp(i, mklen(v), "<")):
        out.append((s, some(("mref", a[1], a[2] + (("ix", i),))) if b else NONE))
    return out


@model("[T]::last", "Vec::last", "VecDeque::back")
def m_last(I, st, fr, args, info):
    v = I.load(st, args[0])
    if v[0] == "arr" and v[1]:
        return [(st, some(v[1][-1]))]
    if v[0] == "call" and v[1] == "push":
        return [(st, some(v[2][1]))]
    return [(st, ("call", "last", (v,)))]


@model("[T]::first", "Vec::first")
def m_first(I, st, fr, args, info):
    v = I.load(st, args[0])
    if v[0] == "arr" and v[1]:
        return [(st, some(v[1][0]))]
    return [(st, ("call", "first", (v,)))]


@model("[T]::last_mut", "[T]::first_mut")
def m_lastmut(I, st, fr, args, info):
    from absint import mklen
    a = args[0]
    v = I.load(st, a)
    n = mklen(v)
    out = []
    last = info["name"].endswith("last_mut")
    for s, b in I.decide(st, cmp(n, ("c", 0), ">")):
        out.append((s, some(("mref", a[1], a[2] + (("ix", sub(n, ("c", 1)) if last else ("c", 0)),))) if b else NONE))
    return out


@model("[T]::contains", "Itertools::contains", "Vec::contains", "VecDeque::contains")
def m_contains(I, st, fr, args, info):
    v, x = I.load(st, args[0]), I.deepval(st, args[1])
    if v[0] == "iter" and not v[2]:
        v = v[1]
    d = st.ldepth
    el = ("elem", v, d)
    t = (info["targs"][-1] if info["name"].startswith("Itertools") else info["targs"][0]) if info["targs"] else None
    eq = I.relation(el, x, "=", t if t and t[0] != "adt" or t and t[1] in () else t or ("o", "usize"))
    fs = facts_of(I, eq)
    if fs is None:
        return [(st, ("call", "contains", (v, x)))]
    return [(st, ("exists", v, fs))]


def facts_of(I, t):
    """DNF (frozenset of frozenset of facts) for a boolean term, on an empty state"""
    from absint import St
    s = St()
    out = []
    for s2, b in I.decide(s, t):
        if b:
            out.append(frozenset(s2.facts.items()))
    return frozenset(out)


@model("[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "[T]::reverse")
def m_sort(I, st, fr, args, info):
    v = I.load(st, args[0])
    n = info["name"].split("::")[-1].replace("_unstable", "").replace("_cached", "")
    extra = tuple(clo_sig(I, st, fr, a, info) for a in args[1:])
    n, extra = sort_norm(n, extra)
    I.write(st, args[0][1], args[0][2], ("call", n, (v,) + extra))
    return [(st, UNIT)]


def sort_norm(n, extra):
    """one name for the in-place and the iterator form; a comparison of the same key of both is a sort by that key"""
    n = {"sort": "sorted", "sort_by": "sorted_by", "sort_by_key": "sorted_by_key", "sorted_by_cached_key": "sorted_by_key", "sorted_unstable": "sorted"}.get(n, n)
    if n == "sorted_by" and extra and extra[0][0] == "lam" and len(extra[0][1]) == 2:
        # compared by one key, then (if equal) by another
        for (fa, ra), (fb, rb) in (tuple(extra[0][1]), tuple(extra[0][1])[::-1]):
            if ra[0] == rb[0] == "ord" and len(fa) == len(fb) == 1 and len(ra) == len(rb) == 3:
                (ka, va), (kb, vb) = list(fa)[0], list(fb)[0]
                if ka == kb and ka[0] == "cmp" and vb == "=" and ka in (list(x_)[0][0] for x_ in [frozenset([(("cmp", sub(ra[1], ra[2])), 0)]), frozenset([(("cmp", sub(ra[2], ra[1])), 0)])]):
                    return sort_norm("sorted_by", (("lam", frozenset([(frozenset(), ("ord", ("tup", (ra[1], rb[1])), ("tup", (ra[2], rb[2]))))])),))
    if n == "sorted_by" and extra and extra[0][0] == "lam" and len(extra[0][1]) == 1:
        (fs, r), = extra[0][1]
        if r[0] == "ord" and not fs:
            kb = subst(subst(r[2], ("arg", 0), ("arg", 99)), ("arg", 1), ("arg", 0))
            if r[1] == kb and not occurs(("arg", 1), r[1]):
                n, extra = "sorted_by_key", (("lam", frozenset([(frozenset(), r[1])])),)
    return n, extra


def clo_sig(I, st, fr, f, info, n=None):
    """canonical summary of a pure closure: set of (facts, result)"""
    f = I.load(st, f)
    fn = None
    if f[0] == "clo":
        fn = I.P.bypath.get(f[1])
        n = fn.argc - 1 if fn else n
    if n is None:
        if f[0] == "fn":
            fo = f[1]
            tgt = I.P.bypath.get(fo[5] or fo[1])
            if tgt is not None:
                n = tgt.argc
    if n is None:
        return ("call", "fnval", (f,) if f[0] != "fn" else (("k", f[1][1]),))
    from absint import TooComplex
    s = st.fork()
    base = dict(s.facts)
    try:
        outs = I.call_value(s, fr, f, [("arg", i) for i in range(n)], info["site"])
    except TooComplex:
        raise
    rows = []
    for o in outs:
        if o[0] == "ret":
            rows.append((frozenset((k, v) for k, v in o[1].facts.items() if base.get(k) != v and k not in o[1].asserted), I.deepval(o[1], o[2])))
    return ("lam", frozenset(rows))


@model("alloc::vec::from_elem")
def m_fromelem(I, st, fr, args, info):
    return [(st, ("repeat", I.deepval(st, args[0]), I.load(st, args[1])))]


@model("Vec::resize")
def m_resize(I, st, fr, args, info):
    v = I.load(st, args[0])
    I.write(st, args[0][1], args[0][2], ("call", "resize", (v, I.load(st, args[1]), I.deepval(st, args[2]))))
    return [(st, UNIT)]


@model("[T]::clone_from_slice", "[T]::copy_from_slice")
def m_clonefrom(I, st, fr, args, info):
    I.write(st, args[0][1], args[0][2], I.load(st, args[1]))
    return [(st, UNIT)]


@model("Clone::clone_from")
def m_clonefrom2(I, st, fr, args, info):
    I.write(st, args[0][1], args[0][2], I.deepval(st, args[1]))
    return [(st, UNIT)]


# ---------------- iterators
@model("[T]::iter", "Vec::iter", "VecDeque::iter", "IntoIterator::into_iter", "Option::iter", "IndexSet::iter", "HashSet::iter", "IntoParallelRefIterator::par_iter",
       "IntoParallelIterator::into_par_iter", "SlotMap::iter", "SlotMap::values", "HashMap::iter", "HashMap::values", "HashMap::keys", "SlotMap::keys", "[T]::par_iter", "Option::into_iter")
def m_iter(I, st, fr, args, info):
    a = args[0]
    nm = info["name"].split("::")[-1]
    if a[0] == "mref":
        v = I.load(st, a)
        if v[0] in ("iter", "iter*"):
            return [(st, v)]
        if nm == "into_iter" and is_mut_ref(info, 0) and a[2] and a[2][-1][0] == "slice1":
            return [(st, ("iter", ("once", ("mref", a[1], a[2][:-1])), ()))]
        if nm == "into_iter" and is_mut_ref(info, 0):
            return [(st, ("iter", ("itermut", a[1], a[2]), ()))]
        a = v
    if a[0] in ("iter", "iter*"):
        return [(st, a)]
    if a[0] == "agg" and a[1] == "Range":
        d = dict(a[3])
        return [(st, ("iter", ("range", d["start"], d["end"]), ()))]
    if a[0] == "call" and a[1] == "RangeInclusive":
        return [(st, ("iter", ("range", a[2][0], add(a[2][1], ("c", 1))), ()))]
    if a[0] == "agg" and a[1] == "Option":
        if a[2] == "Some":
            return [(st, ("iter", ("once", a[3][0][1]), ()))]
        return [(st, ("iter", E(), ()))]
    if info["name"].startswith("SlotMap") and nm in ("values",):
        return [(st, ("iter", ("call", "smvalues", (a,)), ()))]
    if info["name"].startswith("HashMap") or info["name"].startswith("HashSet"):
        return [(st, ("iter", ("call", "unordered_" + nm, (a,)), ()))]
    return [(st, ("iter", a, ()))]


def is_mut_ref(info, i):
    t = info["argtys"][i] if i < len(info["argtys"]) else None
    return bool(t and t[0] == "ref" and t[1])


@model("RangeInclusive::new")
def m_rincl(I, st, fr, args, info):
    return [(st, ("call", "RangeInclusive", (I.load(st, args[0]), I.load(st, args[1]))))]


@model("RangeInclusive::start", "RangeInclusive::end")
def m_rinclse(I, st, fr, args, info):
    a = I.load(st, args[0])
    if a[0] == "call" and a[1] == "RangeInclusive":
        return [(st, a[2][0 if info["name"].endswith("start") else 1])]
    return [(st, ("f", a, "start" if info["name"].endswith("start") else "end"))]


@model("RangeInclusive::contains", "Range::contains")
def m_rcontains(I, st, fr, args, info):
    a, x = I.load(st, args[0]), I.load(st, args[1])
    if a[0] == "call" and a[1] == "RangeInclusive":
        lo, hi, incl = a[2][0], a[2][1], True
    elif a[0] == "agg" and a[1] == "Range":
        d = dict(a[3])
        lo, hi, incl = d["start"], d["end"], False
    else:
        lo, hi, incl = ("f", a, "start"), ("f", a, "end"), "Inclusive" in info["name"]
    ts = (cmp(lo, x, "<="), cmp(x, hi, "<=" if incl else "<"))
    if F in ts:
        return [(st, F)]
    ts = tuple(t for t in ts if t != T)
    if not ts:
        return [(st, T)]
    if len(ts) == 1:
        return [(st, ts[0])]
    return [(st, ("and",) + tuple(sorted(ts, key=key)))]


@model("[T]::iter_mut", "Vec::iter_mut", "SlotMap::values_mut", "SlotMap::iter_mut", "HashMap::values_mut", "VecDeque::iter_mut")
def m_itermut(I, st, fr, args, info):
    a = args[0]
    if a[0] != "mref":
        return None
    if a[2] and a[2][-1][0] == "slice1":
        return [(st, ("iter", ("once", ("mref", a[1], a[2][:-1])), ()))]
    return [(st, ("iter", ("itermut", a[1], a[2]), ()))]


@model("core::iter::sources::once::once")
def m_once(I, st, fr, args, info):
    return [(st, ("iter", ("once", args[0]), ()))]


@model("core::iter::sources::empty::empty")
def m_emptyit(I, st, fr, args, info):
    return [(st, ("iter", E(), ()))]


def getiter(I, st, a, info=None, i=0):
    if a[0] == "mref":
        v = I.load(st, a)
        if v[0] in ("iter", "iter*"):
            return v
        if v[0] == "call" and not v[1].startswith("emptyvec") and (info.get("tname") or "").startswith("Iterator::") and v[1] in I.boundary or v[0] == "p" and info and (info.get("tname") or "").startswith("Iterator::"):
            return ("iter", v, ())
        if info and is_mut_ref(info, i):
            return ("iter", ("itermut", a[1], a[2]), ())
        a = v
    if a[0] in ("iter", "iter*"):
        return a
    if a[0] == "agg" and a[1] == "Range":
        d = dict(a[3])
        return ("iter", ("range", d["start"], d["end"]), ())
    if a[0] == "call" and a[1] == "RangeInclusive":
        return ("iter", ("range", a[2][0], add(a[2][1], ("c", 1))), ())
    if a[0] == "agg" and a[1] == "Option":
        return ("iter", ("once", a[3][0][1]), ()) if a[2] == "Some" else ("iter", E(), ())
    return ("iter", a, ())


def addad(it, ad):
    return ("iter", it[1], it[2] + (ad,))


for nm in ("map", "filter", "filter_map", "flat_map", "take_while", "inspect"):
    def mkad(nm):
        def f(I, st, fr, args, info):
            it = getiter(I, st, args[0], info)
            ts = info.get("targs") or ()
            if nm == "flat_map" and len(ts) > 1 and ts[1][0] == "adt" and ts[1][1] == "Option":
                return [(st, addad(it, ("filter_map", args[1])))]
            return [(st, addad(it, (nm, args[1])))]
        return f
    MODELS["Iterator::" + nm] = mkad(nm)
    MODELS["ParallelIterator::" + nm] = mkad(nm)


@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def m_enum(I, st, fr, args, info):
    return [(st, addad(getiter(I, st, args[0], info), ("enumerate",)))]


@model("Iterator::flatten")
def m_flatten(I, st, fr, args, info):
    return [(st, addad(getiter(I, st, args[0], info), ("flatten",)))]


@model("Iterator::cloned", "Iterator::copied", "Iterator::fuse")
def m_icloned(I, st, fr, args, info):
    return [(st, getiter(I, st, args[0], info))]


@model("Iterator::rev")
def m_rev(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    if any(a[0] in ("enumerate",) for a in it[2]):
        return [(st, ("iter", ("call", "revpipe", (it,)), ()))]
    if it[1][0] == "rev":
        return [(st, ("iter", it[1][1], it[2]))]
    if it[1][0] == "zip" and any(isinstance(u, tuple) and u and u[0] == "itermut" for u in walk(it[1])):
        return [(st, it)]       # updates of separate elements: in any order
    return [(st, ("iter", ("rev", it[1]), it[2]))]


@model("Iterator::zip", "core::iter::adapters::zip::zip")
def m_zip(I, st, fr, args, info):
    return [(st, ("iter", ("zip", getiter(I, st, args[0], info), getiter(I, st, args[1], info, 1)), ()))]


@model("Iterator::chain")
def m_chain(I, st, fr, args, info):
    return [(st, ("iter", ("chain", getiter(I, st, args[0], info), getiter(I, st, args[1], info, 1)), ()))]


for nm in ("skip", "take", "step_by", "skip_while"):
    def mks(nm):
        def f(I, st, fr, args, info):
            it = getiter(I, st, args[0], info)
            n = I.load(st, args[1])
            if nm == "skip_while":
                n = ("call", "?", ())
            from absint import mklen
            if not it[2] and it[1][0] not in ("zip", "chain", "itermut", "rev"):
                b = it[1]
                if nm == "skip" and b[0] == "range":
                    return [(st, ("iter", ("range", add(b[1], n), b[2]), ()))]
                if nm == "skip" and b[0] not in ("range",):
                    return [(st, ("iter", slice_(b, ("agg", "RangeFrom", "RangeFrom", (("start", n),))), ()))]
                if nm == "take" and b[0] not in ("range",):
                    return [(st, ("iter", slice_(b, ("agg", "Range", "Range", (("start", ("c", 0)), ("end", n)))), ()))]
            return [(st, ("iter", ("call", nm, (frozen(I, st, fr, it, info), n)), ()))]
        return f
    MODELS["Iterator::" + nm] = mks(nm)


def frozen(I, st, fr, it, info):
    """materialise a pipeline as a collection term"""
    if not it[2] and it[1][0] not in ("itermut", "zip", "chain"):
        return it[1]
    r = collect(I, st.fork(), fr, it, info)
    return r[0][1] if r else ("call", "pipe?", ())


@model("Itertools::tuple_windows", "[T]::windows", "[T]::chunks", "Itertools::tuple_combinations", "Itertools::unique", "Itertools::sorted", "Itertools::sorted_by", "Itertools::sorted_by_key", "Itertools::sorted_by_cached_key", "Itertools::sorted_unstable", "Iterator::cycle", "Itertools::circular_tuple_windows", "Itertools::dedup")
def m_adcall(I, st, fr, args, info):
    n = (info["tname"] or info["name"]).split("::")[-1]
    a = args[0]
    if n in ("windows", "chunks"):
        v = I.load(st, a)
    else:
        v = frozen(I, st, fr, getiter(I, st, a, info), info)
    extra = []
    for x in args[1:]:
        y = I.load(st, x)
        extra.append(clo_sig(I, st, fr, y, info, 1) if y[0] in ("clo", "fn") else y)
    if n == "windows" and v[0] == "arr" and extra and extra[0][0] == "c" and 0 < extra[0][1] <= len(v[1]) <= 8:
        w = extra[0][1]
        return [(st, ("iter", ("arr", tuple(("arr", v[1][i:i + w]) for i in range(len(v[1]) - w + 1))), ()))]
    n, extra = sort_norm(n, tuple(extra))
    return [(st, ("iter", ("call", n, (v,) + extra), ()))]


@model("Iterator::next")
def m_next(I, st, fr, args, info):
    a = args[0]
    v = I.load(st, a)
    if v[0] == "iter*":
        depth = v[3]
        from absint import its_src, SKIP
        src = its_src(v)
        e = st.fork()
        e.facts[("exh", src, depth)] = True
        out = [(e, NONE)]
        for s, el in I.expand(st, fr, v, depth, info["site"]):
            if el == SKIP:
                # filtered element: this abstract iteration has no effect
                I.skips.append((depth, s))
                continue
            out.append((s, some(el)))
        return out
    if v[0] == "iter":
        if a[0] == "mref":
            from absint import SKIP
            if v[1][0] == "once" and not v[2]:
                I.write(st, a[1], a[2], ("iter", E(), ()))
                return [(st, some(v[1][1]))]
            col = frozen(I, st, fr, v, info)
            I.write(st, a[1], a[2], ("iter", ("call", "tail", (col,)), ()))
            return [(st, ("call", "first", (col,)))]
    return None


def pred_rows(I, st, fr, it, f, info, elem_xform=None):
    """DNF of 'element satisfies predicate' + list of (facts, elem)"""
    from absint import SKIP, its_src
    depth = st.ldepth
    base = dict(st.facts)
    s0 = st.fork()
    s0.ldepth = depth + 1
    rows = []
    neg_rows = []
    for s, el in I.expand(s0, fr, it, depth, info["site"]):
        if el == SKIP:
            continue
        e = I.load(s, el)
        outs = I.call_value(s, fr, f, [el], info["site"]) if f is not None else [("ret", s, T)]
        for o in outs:
            if o[0] != "ret":
                continue
            for s2, b in I.decide(o[1], o[2]):
                fs = frozenset((k, v) for k, v in s2.facts.items() if base.get(k) != v and k not in s2.asserted)
                (rows if b else neg_rows).append((fs, e))
    return rows, neg_rows, its_src(it), depth


def ex_term(src, rows, depth):
    from absint import norm_src
    fset = frozenset(fs for fs, _ in rows)
    if not fset:
        return F
    s, fset = norm_src(src, fset, depth)
    return ("exists", s, fset)


@model("Iterator::any", "ParallelIterator::any")
def m_any(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    return some_part(I, st, fr, it, args[1], info, 0, T)


def some_part(I, st, fr, it, f, info, neg, found):
    """any / all, part by part"""
    if it[1][0] == "arr" and not it[2] and len(it[1][1]) <= 4 and all(x[0] == "arr" for x in it[1][1]):
        # windows of a literal array: one by one
        out, cur = [], [st]
        for x in it[1][1]:
            nxt = []
            for s in cur:
                for o in I.call_value(s, fr, f, [x], info["site"]):
                    if o[0] != "ret":
                        continue
                    for s2, b in I.decide(o[1], o[2]):
                        if b == (found == T):
                            out.append((s2, found))
                        else:
                            nxt.append(s2)
            cur = nxt
        return out + [(s, not_(found)) for s in cur]
    ps = chain_parts(it)
    out, cur = [], [st]
    for p in ps:
        nxt = []
        for s in cur:
            q = pred_rows(I, s, fr, p, f, info)
            ex = ex_term(q[2], q[neg], q[3])
            if len(ps) == 1:
                return [(s, ex if found == T else not_(ex))]
            for s2, b in I.decide(s, ex):
                if b:
                    out.append((s2, found))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, not_(found)) for s in cur]


def chain_parts(it):
    """a.chain(b) under element-wise adaptors as its parts"""
    if it[1][0] == "chain" and all(a[0] in ("map", "filter", "filter_map", "cloned", "copied", "inspect") for a in it[2]):
        return [q for p in it[1][1:] for q in chain_parts(("iter", p[1], p[2] + it[2]))]
    return [it]


@model("Iterator::all", "ParallelIterator::all")
def m_all(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    return some_part(I, st, fr, it, args[1], info, 1, F)


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def m_find(I, st, fr, args, info):
    from absint import SKIP, its_src, norm_src
    n = (info["tname"] or info["name"]).split("::")[-1]
    it = args[0] if args[0][0] == "iter" else getiter(I, st, args[0], info)
    if it[1][0] == "chain" and n in ("find", "find_map") and all(a[0] in ("map", "filter", "filter_map", "cloned", "copied", "inspect") for a in it[2]):
        # the first part is searched, then the second
        out = []
        for o in m_find(I, st, fr, [("iter", it[1][1][1], it[1][1][2] + it[2])] + args[1:], info):
            if len(o) == 2 and o[1] == NONE:
                out += m_find(I, o[0], fr, [("iter", it[1][2][1], it[1][2][2] + it[2])] + args[1:], info)
            else:
                out.append(o)
        return out
    if n == "find_map":
        it = addad(it, ("filter_map", args[1]))
        rows, neg_, src, d = pred_rows(I, st, fr, it, None, info)
    else:
        rows, neg_, src, d = pred_rows(I, st, fr, it, args[1], info)
    ex = ex_term(src, rows, d)
    out = []
    if ex == F:
        return [(st, NONE)]
    el = ("elem", src, d)
    # the found value(s): usually one expression of the element
    if it[1][0] == "itermut" and n == "find":
        v = I.read(st, it[1][1], it[1][2])
        ex = subst(ex, ("itermut", it[1][1], it[1][2]), v)
        for s, b in I.decide(st, ex):
            out.append((s, some(("mref", it[1][1], it[1][2] + (("ix", ("findidx", ex[1], ex[2])),))) if b else NONE))
        return out
    if it[1][0] == "itermut":
        v = I.read(st, it[1][1], it[1][2])
        ex = subst(ex, ("itermut", it[1][1], it[1][2]), v)
        src = v
    for s, b in I.decide(st, ex):
        if not b:
            out.append((s, NONE))
            continue
        if n in ("position",):
            out.append((s, some(("findidx", ex[1], ex[2]))))
        elif n == "rposition":
            out.append((s, some(("rfindidx", ex[1], ex[2]))))
        else:
            exprs = sorted({e for _, e in rows}, key=key)
            w = ("find", ex[1], ex[2])
            src2, _ = norm_src(src, ex[2], d)
            for j, e in enumerate(exprs):
                s3 = s.fork() if j + 1 < len(exprs) else s
                e2 = subst(e, ("elem", src2, d), w)
                if src2 != src:
                    e2 = subst(e2, el, ("findidx", ex[1], ex[2]) if src[0] == "range" else w)
                out.append((s3, some(e2)))
    return out


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_foreach(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)

    def body(s, el):
        res = []
        for o in I.call_value(s, fr, args[1], [el], info["site"]):
            res.append(("back", o[1]) if o[0] == "ret" else o)
        return res
    out = []
    for o in I.iter_loop(st, fr, it, body, info["site"]):
        if o[0] == "exit":
            out.append((o[1], UNIT))
        elif o[0] == "panic":
            out.append(o)
    return out


def elementwise(I, st, fr, xs, fs, info):
    """applies the closures to every element of a literal array, forking on their outcomes"""
    live, done = [(st.fork(), ())], []
    for x in xs:
        cur = [(s, vs, x) for s, vs in live]
        for f in fs:
            nxt = []
            for s, vs, c in cur:
                for o in I.call_value(s, fr, f, [c], info["site"]):
                    if o[0] == "ret":
                        nxt.append((o[1], vs, o[2]))
                    elif o[0] == "panic":
                        done.append(o)
                    else:
                        return None
            cur = nxt
            if len(cur) > 16 or len(done) > 32:
                return None
        live = [(s, vs + (I.deepval(s, c),)) for s, vs, c in cur]
    return [(s, ("arr", vs)) for s, vs in live] + done


def collect(I, st, fr, it, info, init=None):
    from absint import SKIP, mkcollect, its_src
    if it[1] == E() and not it[2]:
        return [(st, init if init is not None else E())]
    if it[1][0] == "once" and not it[2]:
        return [(st, ("arr", (I.deepval(st, it[1][1]),)) if init is None else mkpush(init, I.deepval(st, it[1][1])))]
    if not it[2] and it[1][0] not in ("zip", "chain", "itermut", "range", "rev") and init is None:
        return [(st, it[1])]
    base, ads = it[1], it[2]
    if base[0] == "chain" and not ads:
        out = []
        for o in collect(I, st, fr, base[1], info, init):
            out += [o] if len(o) == 3 else collect(I, o[0], fr, base[2], info, o[1])
        return out
    if base[0] == "arr" and len(base[1]) <= 9 and init is None and all(a[0] in ("map",) for a in ads):
        # literal array: element-wise
        r = elementwise(I, st, fr, [x for x in base[1]], [a[1] for a in ads], info)
        if r is not None:
            return r
    # closures with side effects: run through the loop machinery
    acc = ("colacc", st.ldepth, len(st.store))
    root = ("C", acc)
    st.store[root] = init if init is not None else E()

    def body(s, el):
        v = s.store[root]
        s.store[root] = ("call", "push", (v, I.deepval(s, el)))
        return [("back", s)]
    out = []
    # avoid array folding of pushes during the loop: use a symbolic accumulator
    for o in I.iter_loop(st, fr, it, body, info["site"]):
        if o[0] == "exit":
            v = o[1].store.pop(root)
            out.append((o[1], v))
        elif o[0] == "panic":
            out.append(o)
    return out


@model("Iterator::collect", "Itertools::collect_vec", "ParallelIterator::collect", "FromIterator::from_iter")
def m_collect(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    # collecting into Result/Option short-circuits: keep opaque wrapper
    t = info["targs"][-1] if info["targs"] else None
    r = collect(I, st, fr, it, info)
    if t and t[0] == "adt" and t[1] in ("HashMap", "HashSet"):
        return [(o[0], ("call", "to" + t[1], (o[1],))) if len(o) == 2 else o for o in r]
    return r


@model("Extend::extend", "Vec::extend_from_slice", "Vec::extend")
def m_extend(I, st, fr, args, info):
    a = args[0]
    if a[0] != "mref":
        return None
    v = I.load(st, a)
    it = getiter(I, st, args[1], info, 1)
    out = []
    for o in collect(I, st, fr, it, info):
        if len(o) == 3:
            out.append(o)
            continue
        s, w = o
        I.write(s, a[1], a[2], w if v == E() else ("call", "append", (v, w)) if w != E() else v)
        out.append((s, UNIT))
    return out


@model("Vec::drain", "VecDeque::drain")
def m_drain(I, st, fr, args, info):
    a = args[0]
    v = I.load(st, a)
    r = I.load(st, args[1]) if len(args) > 1 else ("agg", "RangeFull", "RangeFull", ())
    if r[0] == "agg" and r[1].startswith("RangeFull"):
        I.write(st, a[1], a[2], E())
        return [(st, ("iter", v, ()))]
    if r[0] == "k":
        I.write(st, a[1], a[2], E())
        return [(st, ("iter", v, ()))]
    if r[0] == "agg":
        d = dict(r[3])
        if d.get("start") == ("c", 0) and "end" not in d:
            I.write(st, a[1], a[2], E())
            return [(st, ("iter", v, ()))]
    sl = slice_(v, r) if r[0] == "agg" else ("call", "slice?", (v, r))
    I.write(st, a[1], a[2], ("call", "drain", (v, sl)))
    return [(st, ("iter", sl, ()))]


@model("[T]::fill")
def m_fill(I, st, fr, args, info):
    a = args[0]
    v = I.load(st, a)
    if a[0] != "mref":
        return None
    I.write(st, a[1], a[2], ("mapped", v, frozenset([(frozenset(), I.deepval(st, args[1]))])))
    return [(st, UNIT)]


@model("Vec::retain", "VecDeque::retain", "HashSet::retain", "IndexSet::retain")
def m_retain(I, st, fr, args, info):
    a = args[0]
    v = I.load(st, a)
    it = ("iter", v, (("filter", args[1]),))
    out = []
    for o in collect(I, st, fr, it, info):
        if len(o) == 3:
            out.append(o)
            continue
        one = drop_one(v, o[1])
        if one is not None:
            # retain(|x| x != k) on a collection of ids: the id, if it is there, is taken out
            for s, b in I.decide(o[0], one):
                I.write(s, a[1], a[2], ("call", "remove", (v, ("findidx", one[1], one[2]))) if b else v)
                out.append((s, UNIT))
            continue
        I.write(o[0], a[1], a[2], o[1])
        out.append((o[0], UNIT))
    return out


def drop_one(v, t):
    if not (t[0] == "collect" and len(t) == 4 and t[2] == v and isinstance(t[3], frozenset)):
        return None
    kept = [r for r in t[3] if r[1] != ("noelem",)]
    if len(kept) != 1:
        return None
    fs, x = kept[0]
    if x[0] != "elem" or x[1] != v or len(fs) != 1:
        return None
    k, val = list(fs)[0]
    if k[0] != "cmp" or sorted(val) != ["<", ">"] or k[1][0] != "n" or sum(1 for m, c in k[1][1] if m == ((x, 1),)) != 1:
        return None
    from terms import walk
    if x in [u for m, c in k[1][1] if m != ((x, 1),) for u in walk(m)]:
        return None
    return ("exists", v, frozenset([frozenset([(k, "=")])]))


def rows_of(I, st, fr, it, info):
    """set of (facts, elem) of a pipeline"""
    rows, _, src, d = pred_rows(I, st, fr, it, None, info)
    from absint import norm_src
    s, rs = norm_src(src, frozenset(rows), d)
    return s, rs


@model("Integer::is_odd", "Integer::is_even")
def m_parity(I, st, fr, args, info):
    from terms import cmp
    x = ("op", "Rem", I.load(st, args[0]), ("c", 2))
    return [(st, cmp(x, ("c", 0), "<>" if "is_odd" in info["tname"] else "="))]


@model("Iterator::count")
def m_count(I, st, fr, args, info):
    from absint import mklen
    it = getiter(I, st, args[0], info)
    if not it[2] and it[1][0] not in ("zip", "chain", "itermut"):
        return [(st, mklen(it[1]))]
    s, rows = rows_of(I, st, fr, it, info)
    return [(st, ("count", s, frozenset(fs for fs, _ in rows)))]


@model("Iterator::sum", "Iterator::product", "ParallelIterator::sum")
def m_sum(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    s, rows = rows_of(I, st, fr, it, info)
    d = st.ldepth
    acc = ("acc", d)
    if "product" in (info["tname"] or ""):
        return [(st, ("call", "product", (s, rows)))]
    if any(a[0] in ("filter", "filter_map", "flatten", "take_while") for a in it[2]):
        return [(st, ("sumf", s, rows))]
    return [(st, ("fold", ("c", 0), s, frozenset((fs, add(acc, e)) for fs, e in rows)))]


@model("Iterator::last")
def m_itlast(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    s, rows = rows_of(I, st, fr, it, info)
    return [(st, ("call", "itlast", (s, rows)))]


@model("Iterator::min", "Iterator::max", "Iterator::min_by_key", "Iterator::max_by_key", "Iterator::min_by", "Iterator::max_by", "Itertools::position_max_by_key", "Itertools::minmax")
def m_minby(I, st, fr, args, info):
    n = (info["tname"]).split("::")[-1]
    it = getiter(I, st, args[0], info)
    s, rows = rows_of(I, st, fr, it, info)
    if n in ("min", "max"):
        n, lam = n + "_by_key", ("lam", frozenset([(frozenset(), ("arg", 0))]))
    else:
        lam = clo_sig(I, st, fr, args[1], info, 2 if n in ("min_by", "max_by") else 1)
    # min_by(|a,b| f(a).cmp(f(b))) == min_by_key(f)
    if n in ("min_by", "max_by") and lam[0] == "lam" and len(lam[1]) == 1:
        (fs, r), = lam[1]
        if r[0] == "ord" and not fs:
            ka = r[1]
            kb = subst(subst(r[2], ("arg", 0), ("arg", 99)), ("arg", 1), ("arg", 0))
            if ka == kb and not occurs(("arg", 1), ka):
                n, lam = n + "_key", ("lam", frozenset([(frozenset(), ka)]))
            else:
                kb2 = subst(r[1], ("arg", 1), ("arg", 0))
                if r[2] == subst(r[1], ("arg", 1), ("arg", 0)) and not occurs(("arg", 0), r[1]):
                    n, lam = {"min_by": "max_by_key", "max_by": "min_by_key"}[n], ("lam", frozenset([(frozenset(), r[2])]))
    if n in ("min_by_key", "max_by_key") and lam == ("lam", frozenset([(frozenset(), ("arg", 0))])) and all(a[0] in ("map", "cloned", "copied", "enumerate") for a in it[2]) and s[0] != "arr":
        from absint import mklen
        # the smallest / largest of the values themselves
        d = [u[2] for u in walk(rows) if isinstance(u, tuple) and len(u) == 3 and u[0] in ("elem", "ei") and isinstance(u[2], int)]
        acc = ("acc", st.ldepth)
        f = ("fold", ("c", "inf" if n == "min_by_key" else "-inf"), s, frozenset((fs, minmax(n[:3], acc, v)) for fs, v in rows))
        return [(s2, NONE if b else some(f)) for s2, b in I.decide(st, cmp(mklen(s), ("c", 0), "="))]
    if n in ("min_by_key", "max_by_key") and lam == ("lam", frozenset([(frozenset(), ("arg", 0))])) and s[0] == "arr" and not it[2] and 0 < len(s[1]) <= 8:
        f = s[1][0]
        for x in s[1][1:]:
            f = minmax(n[:3], f, x)
        return [(st, some(f))]
    if n in ("min_by_key", "max_by_key") and lam[0] == "lam":
        # the first (last) of the pairs (key, element) with the smallest (largest) key
        from canon import merge_facts
        prs = set()
        for fs, v in rows:
            for fs2, k in lam[1]:
                m = fs if v == ("noelem",) else merge_facts(fs, subst(fs2, ("arg", 0), v))
                if m is not None:
                    prs.add((m, v if v == ("noelem",) else ("tup", (subst(k, ("arg", 0), v), v))))
        return [(st, ("call", n, (("collect", ("call", "emptyvec", ()), s, frozenset(prs)),)))]
    return [(st, ("call", n, (s, rows, lam)))]


@model("Iterator::fold")
def m_fold(I, st, fr, args, info):
    it = getiter(I, st, args[0], info)
    root = ("C", ("foldacc", st.ldepth, len(st.store)))
    st.store[root] = args[1]

    def body(s, el):
        res = []
        for o in I.call_value(s, fr, args[2], [s.store[root], el], info["site"]):
            if o[0] == "ret":
                o[1].store[root] = o[2]
                res.append(("back", o[1]))
            else:
                res.append(o)
        return res
    out = []
    for o in I.iter_loop(st, fr, it, body, info["site"]):
        if o[0] == "exit":
            v = o[1].store.pop(root)
            out.append((o[1], v))
        elif o[0] == "panic":
            out.append(o)
    return out


@model("[T; N]::map")
def m_arrmap(I, st, fr, args, info):
    v = I.load(st, args[0])
    return collect(I, st, fr, ("iter", v, (("map", args[1]),)), info)


@model("core::array::from_fn")
def m_fromfn(I, st, fr, args, info):
    n = None
    for t in info["targs"]:
        if isinstance(t, tuple) and t[0] == "o" and "const" in t[1]:
            import re
            mm = re.search(r"0x([0-9a-f]+)|(\d+)_usize", t[1])
            if mm:
                n = int(mm.group(1), 16) if mm.group(1) else int(mm.group(2))
    if n is None or n > 9:
        return None
    return elementwise(I, st, fr, [("c", i) for i in range(n)], [args[0]], info)


@model("usize::saturating_sub")
def m_satsub(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    return [(st, minmax("max", sub(a, b), ("c", 0)))]


@model("usize::wrapping_sub", "usize::wrapping_add", "isize::wrapping_add", "isize::wrapping_sub", "usize::saturating_add", "usize::wrapping_add_signed", "usize::saturating_add_signed")
def m_wrap(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    return [(st, sub(a, b) if "sub" in info["name"] else add(a, b))]


@model("usize::checked_sub")
def m_chksub(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    out = []
    for s, ge in I.decide(st, cmp(a, b, "=>")):
        out.append((s, some(sub(a, b)) if ge else NONE))
    return out


@model("usize::abs_diff", "isize::abs_diff")
def m_absdiff(I, st, fr, args, info):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    out = []
    for s, ge in I.decide(st, cmp(a, b, "=>")):
        out.append((s, sub(a, b) if ge else sub(b, a)))
    return out


# ---------------- SlotMap
@model("SlotMap::insert")
def m_sminsert(I, st, fr, args, info):
    v = I.load(st, args[0])
    x = I.deepval(st, args[1])
    I.write(st, args[0][1], args[0][2], ("call", "sm_insert", (v, x)))
    return [(st, ("call", "sm_key", (v, x)))]


@model("SlotMap::remove", "HashMap::remove")
def m_smremove(I, st, fr, args, info):
    v = I.load(st, args[0])
    k = I.load(st, args[1])
    I.write(st, args[0][1], args[0][2], ("call", "sm_remove", (v, k)))
    return [(st, ("call", "sm_get", (v, k)))]


@model("SlotMap::get", "HashMap::get")
def m_smget(I, st, fr, args, info):
    return [(st, ("call", "sm_get", (I.load(st, args[0]), I.load(st, args[1]))))]


@model("SlotMap::with_key", "SlotMap::new")
def m_smnew(I, st, fr, args, info):
    return [(st, E())]


@model("IndexSet::swap_remove", "IndexSet::shift_remove", "HashSet::remove", "IndexSet::swap_take", "BTreeSet::remove")
def m_setremove(I, st, fr, args, info):
    s, x = I.load(st, args[0]), I.deepval(st, args[1])
    r = ("call", "contains", (s, x))
    if args[0][0] == "mref":
        I.write(st, args[0][1], args[0][2], ("call", "set_remove", (s, x)))
    return [(st, r)]


@model("IndexSet::insert", "HashSet::insert", "BTreeSet::insert")
def m_setinsert(I, st, fr, args, info):
    s, x = I.load(st, args[0]), I.deepval(st, args[1])
    if args[0][0] == "mref":
        I.write(st, args[0][1], args[0][2], ("call", "set_insert", (s, x)))
    return [(st, not_(("call", "contains", (s, x))))]


@model("IndexSet::contains", "HashSet::contains", "BTreeSet::contains")
def m_setcontains(I, st, fr, args, info):
    s, x = I.load(st, args[0]), I.deepval(st, args[1])
    return [(st, ("call", "contains", (s, x)))]


@model("TryInto::try_into", "TryFrom::try_from")
def m_tribool(I, st, fr, args, info):
    ts = [t for t in (info["targs"] or []) + (info["argtys"] or []) if t]
    if not any(t[0] == "adt" and t[1] == "Tribool" for t in ts):
        return None
    v = I.load(st, args[0])
    out = []
    for s, b in I.decide_is(st, v, "Tribool", "True"):
        if b:
            out.append((s, ("agg", "Result", "Ok", (("0", T),))))
            continue
        for s2, b2 in I.decide_is(s, v, "Tribool", "False"):
            out.append((s2, ("agg", "Result", "Ok", (("0", F),)) if b2 else ("agg", "Result", "Err", (("0", UNIT),))))
    return out


@model("Tribool::is_true", "Tribool::is_false", "Tribool::is_indeterminate")
def m_tribool_is(I, st, fr, args, info):
    v = I.load(st, args[0])
    var = {"is_true": "True", "is_false": "False", "is_indeterminate": "Indeterminate"}[info["name"].split("::")[-1]]
    return [(s, tobool(b)) for s, b in I.decide_is(st, v, "Tribool", var)]
