"""Program database built from the MIR dumps written by driver/main.rs."""
import json, re, os

_mod = re.compile(r"(?<![\w>}])(?:[a-z_][a-z0-9_]*::)+(?=[A-Za-z_<{&\[(])")
_life = re.compile(r"<'[a-z_]\w*>")
_life2 = re.compile(r"'[a-z_]\w*,? ?")


def strip_generics_tail(p):
    """drop ::<...> turbofish groups (balanced)"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


EXT_KEEP = ("core::", "std::", "alloc::", "rand::", "log::", "rayon", "itertools", "slotmap", "ordered_float")


def _strip_mods(s):
    return _mod.sub("", s)


_NAMES = {}


def known_names():
    """short name -> full path of the functions the contracts talk about, for when another function gets the same short name"""
    if not _NAMES:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.txt")
        _NAMES.update(l.rstrip("\n").split("\t") for l in open(f))
    return _NAMES


def short(path):
    """Module-free name: types/traits keep their last segment, free fns of external crates keep the path."""
    p = strip_generics_tail(path)
    p = _life.sub("", p)
    p = _life2.sub("", p)
    base = p
    # closures / constants suffix
    m = re.match(r"^(.*?)((?:::\{(?:closure|constant)#\d+\}|::promoted\[\d+\])*)$", p)
    head, tail = m.group(1), m.group(2)
    # nested closures within fn names may carry inner items (fn in fn)
    if head.startswith("<impl "):
        m = re.match(r"^<impl (.*) for (.*)>::(\w+)$", head)
        if m:
            return "<%s as %s>::%s%s" % (_strip_mods(m.group(2)), _strip_mods(m.group(1)), m.group(3), tail)
    m = re.match(r"^(?:[\w:]*::)?<impl (.*) for (.*?)>::(.*)$", head)
    if m:
        return "<%s as %s>::%s%s" % (_strip_mods(m.group(2)), _strip_mods(m.group(1)), m.group(3), tail)
    m = re.match(r"^(?:[\w:]*::)?<impl (.*?)>::(.*)$", head)
    if m:
        return "%s::%s%s" % (_strip_mods(m.group(1)), m.group(2), tail)
    if head.startswith("<"):
        return _strip_mods(head) + tail
    segs = head.split("::")
    crate = segs[0]
    k = None
    for i, s in enumerate(segs):
        if s[:1].isupper():
            k = i
            break
    if k is None:
        if crate in ("jagua_rs", "lbf"):
            # keep `outer_fn::inner_fn`? modules are dropped, only the last name is kept
            return segs[-1] + tail
        return head + tail
    return "::".join(segs[k:]) + tail


class Ty:
    """types are tuples: ('adt',short,args) ('ref',mut,t) ('ptr',m,t) ('tup',args) ('slice',t) ('array',t,n)
    ('fndef',path,args) ('closure',path,args) ('param',n) ('o',s) ('alias',s)"""


def ty_subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k in ("adt", "fndef", "closure"):
        return (k, t[1], tuple(ty_subst(a, env) if isinstance(a, tuple) else a for a in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], ty_subst(t[2], env))
    if k == "tup":
        return (k, tuple(ty_subst(a, env) for a in t[1]))
    if k == "slice":
        return (k, ty_subst(t[1], env))
    if k == "array":
        return (k, ty_subst(t[1], env), t[2])
    return t


def ty_str(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "adt":
        return t[1] + ("<" + ",".join(ty_str(a) for a in t[2]) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + ty_str(t[2])
    if k == "ptr":
        return "*" + ty_str(t[2])
    if k == "tup":
        return "(" + ",".join(ty_str(a) for a in t[1]) + ")"
    if k == "slice":
        return "[" + ty_str(t[1]) + "]"
    if k == "array":
        return "[" + ty_str(t[1]) + ";" + str(t[2]) + "]"
    if k in ("fndef", "closure"):
        return "{" + t[1] + "}"
    return t[1]


class Fn:
    __slots__ = ("name", "path", "crate", "kind", "item", "exp", "vis", "file", "line", "argc", "locals", "lnames",
                 "blocks", "impl_self", "impl_trait", "impl_targs", "in_trait", "generics", "caps", "parent", "_loops")


def box_derefs(st):
    """`*boxed` is lowered to: tmp = bitwise copy of the box; p = transmute(tmp.0): make p a borrow of the original place"""
    alias = {}
    out = []
    for dst, rv, line in st:
        if rv[0] == "use" and rv[1][0] == "place" and not dst[2] and dst[3][:2] == ("adt", "Box") and not rv[1][4]:
            alias[dst[1]] = rv[1]
        if rv[0] == "cast" and rv[1] == "BoxDerefTransmute" and rv[2][0] == "place":
            pl = rv[2]
            if pl[2] and pl[2][-1][0] == "f" and pl[2][-1][1] == "0":
                base = pl[2][:-1]
                t = pl[2][-1][2][2][0] if len(pl[2][-1][2]) > 2 and pl[2][-1][2][2] else pl[3]
                if not base and pl[1] in alias:
                    a = alias[pl[1]]
                    rv = ("ref", "mut", ("place", a[1], a[2], a[3], False))
                else:
                    rv = ("ref", "mut", ("place", pl[1], base, ("adt", "Box", (t,)), False))
        out.append((dst, rv, line))
    return out


_SHAPES = {}


def shapes():
    """the types and signatures the contracts were written against (meta/shapes.py): only used to recognise renamed or reshaped items"""
    if not _SHAPES:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")
        if os.path.exists(f):
            _SHAPES.update(json.load(open(f)))
    return _SHAPES


def sig_ty(t):
    """type in a signature, up to borrowing"""
    if not isinstance(t, tuple):
        return str(t)
    if t[0] in ("ref", "ptr"):
        return sig_ty(t[2])
    if t[0] == "adt" and t[1] in ("Vec", "Box", "Arc") and t[2]:
        return ("[%s]" if t[1] == "Vec" else "%s") % sig_ty(t[2][0])
    if t[0] == "slice":
        return "[%s]" % sig_ty(t[1])
    if t[0] == "adt":
        return t[1] + ("<" + ",".join(sig_ty(a) for a in t[2]) + ">" if t[2] else "")
    if t[0] == "tup":
        return "(" + ",".join(sig_ty(a) for a in t[1]) + ")"
    if t[0] in ("closure", "fndef"):
        return "{fn}"
    if t[0] == "alias":
        return "?"
    if t[0] == "param":
        return "?"
    if t in (("o", "f32"), ("o", "f64")):
        return "real"
    return re.sub(r"\bf(32|64)\b", "real", ty_str(t))


def sig(fn):
    return [sig_ty(t) for t in fn.locals[:fn.argc + 1]]


def shape_of(P):
    """description of the program that shapes.json holds for the reference tree"""
    adts, fns = {}, {}
    for n, a in P.adts.items():
        if a["local"] or a["path"].startswith(("jagua_rs", "lbf")):
            adts[n] = {"path": a["path"], "kind": a["kind"], "variants": [[v, [[f, sig_ty(t) if t is not None else None] for f, t, _ in fs]] for v, _, fs in a["variants"]]}
    callers = {}
    for f in P.fns.values():
        for b in f.blocks:
            if b and b[1][0] == "call" and b[1][1][0] == "fn":
                for q in (b[1][1][5], b[1][1][1]):
                    t = P.bypath.get(q) if q else None
                    if t is not None:
                        callers.setdefault(t.name, set()).add(re.sub(r"::\{closure#\d+\}.*", "", f.name))
    for n, f in P.fns.items():
        if "{" not in n and not f.exp:
            fns[n] = {"path": f.path, "sig": sig(f), "callers": sorted(callers.get(n, ())), "pub": f.vis == "Public"}
    return {"adts": adts, "fns": fns}


def match_fields(old, new):
    """[(name, type)] of the reference and the current type -> ({current: reference}, added, removed, retyped)"""
    o, n = dict(old), dict(new)
    gone = [f for f in o if f not in n]
    came = [f for f in n if f not in o]
    ren = {}
    pos = {f: i for i, (f, _) in enumerate(old)}
    for f in list(gone):
        c = [g for g in came if n[g] == o[f]]
        if len(c) > 1 and len(old) == len(new):
            c = [g for g in c if new.index((g, n[g])) == pos[f]]
        if len(c) == 1:
            ren[c[0]] = f
            gone.remove(f)
            came.remove(c[0])
    return ren, came, gone, [f for f in o if f in n and o[f] != n[f]]


class Program:
    def __init__(self, files, paths=(), fields=None):
        self.paths, self.fields = list(paths), fields or {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.bypath = {}
        self.collisions = []
        for f in files:
            self._load(f)

    def _load(self, f):
        text = open(f).read()
        for a, b in self.paths:
            text = re.sub(r'(?<![\w:])' + re.escape(a) + r'(?!\w)', lambda m: b, text)
        d = json.loads(text)
        crate = d["crate"] + ("-bin" if d["bin"] else "")
        raw = d["types"]
        cache = {}

        def ty(i):
            if isinstance(i, str):
                return ("o", i)
            if i in cache:
                return cache[i]
            cache[i] = ("o", "<rec>")
            r = raw[i]
            k = r["k"]
            if k == "adt":
                v = ("adt", short(r["p"]), tuple(ty(a) for a in r["a"]))
            elif k == "ref":
                v = ("ref", r["m"], ty(r["t"]))
            elif k == "ptr":
                v = ("ptr", r["m"], ty(r["t"]))
            elif k == "tup":
                v = ("tup", tuple(ty(a) for a in r["a"]))
            elif k == "slice":
                v = ("slice", ty(r["t"]))
            elif k == "array":
                v = ("array", ty(r["t"]), r["n"])
            elif k in ("fndef", "closure"):
                v = (k, r["p"], tuple(ty(a) for a in r["a"]))
            elif k == "param":
                v = ("param", r["n"])
            elif k == "alias":
                v = ("alias", r["s"])
            else:
                v = ("o", r["s"])
            cache[i] = v
            return v

        for p, a in d["adts"].items():
            s = short(p)
            info = {
                "path": p, "kind": a["kind"], "local": a["local"], "vis": a["vis"], "span": a["span"],
                "variants": [(v["n"], v["d"], [(self.fields.get((s, fl["n"]), fl["n"]), ty(fl["t"]) if fl["t"] is not None else None, fl["v"]) for fl in v["f"]]) for v in a["variants"]],
            }
            if s in self.adts and not a["local"]:
                continue
            if s in self.adts and self.adts[s]["path"] != p and (self.adts[s]["local"]) :
                if not a["local"]:
                    continue
                self.collisions.append((s, p, self.adts[s]["path"]))
            self.adts[s] = info

        def conv_place(p):
            proj = []
            for e in p["p"]:
                if e[0] == "f":
                    nm = e[1]
                    if self.fields and e[4] is not None:
                        nm = self.fields.get((short(e[4]), nm), nm)
                    proj.append(("f", nm, ty(e[3])))
                else:
                    proj.append(tuple(e))
            return ("place", p["l"], tuple(proj), ty(p["t"]), "mv" in p)

        def conv_op(o):
            if "l" in o:
                return conv_place(o)
            if "fn" in o:
                return ("fn", o["fn"], tuple(ty(a) for a in o["a"]), o.get("tr"), o.get("m"), o.get("r"),
                        tuple(ty(a) for a in o.get("ra", [])), (short(o["ca"]), o["cv"]) if "ctor" in o else None)
            if "c" in o:
                return ("const", o["c"], ty(o["t"]), o.get("u"))
            return ("constx", o["k"], ty(o["t"]), o.get("u"), o.get("prom"), tuple(ty(a) for a in o.get("ua", [])))

        def conv_rv(r):
            k = r[0]
            if k == "use":
                return ("use", conv_op(r[1]))
            if k == "rep":
                return ("rep", conv_op(r[1]), r[2])
            if k in ("ref", "raw"):
                return (k, r[1], conv_place(r[2]))
            if k == "cast":
                return ("cast", r[1], conv_op(r[2]), ty(r[3]))
            if k == "bin":
                return ("bin", r[1], conv_op(r[2]), conv_op(r[3]))
            if k == "un":
                return ("un", r[1], conv_op(r[2]))
            if k == "discr":
                return ("discr", conv_place(r[1]))
            if k == "agg":
                kk = dict(r[1])
                if "p" in kk and kk["k"] == "adt":
                    kk["p"] = short(kk["p"])
                return ("agg", kk, [conv_op(o) for o in r[2]])
            if k == "setdiscr":
                return ("setdiscr", r[1])
            return ("other", r[1])

        for p, b in d["fns"].items():
            fn = Fn()
            fn.path = p
            fn.crate = crate
            fn.name = short(p)
            fn.kind = b["kind"]
            fn.item = b["item"]
            fn.exp = b["exp"]
            fn.vis = b["vis"]
            fn.file, fn.line = b["span"]
            fn.argc = b["argc"]
            fn.locals = [ty(l[0]) for l in b["locals"]]
            fn.lnames = [l[1] if len(l) > 1 else None for l in b["locals"]]
            fn.impl_self = ty(b["impl_self"]) if "impl_self" in b else None
            fn.impl_trait = short(b["impl_trait"]) if "impl_trait" in b else None
            fn.impl_targs = [ty(x) for x in b.get("impl_targs", [])]
            fn.in_trait = short(b["in_trait"]) if "in_trait" in b else None
            fn.generics = b.get("generics", [])
            fn.caps = b.get("caps", [])
            fn.parent = b.get("parent")
            fn._loops = None
            blocks = []
            for blk in b["blocks"]:
                if blk is None:
                    blocks.append(None)
                    continue
                st = [(conv_place(s[0]), conv_rv(s[1]), s[2]) for s in blk["s"]]
                st = box_derefs(st)
                t = blk["t"]
                k = t[0]
                if k == "switch":
                    t = ("switch", conv_op(t[1]), [tuple(x) for x in t[2]], t[3])
                elif k == "drop":
                    t = ("goto", t[2])
                elif k == "call":
                    t = ("call", conv_op(t[1]), [conv_op(o) for o in t[2]], conv_place(t[3]), t[4])
                elif k == "assert":
                    t = ("assert", conv_op(t[1]), t[2], t[3], t[4])
                else:
                    t = tuple(t)
                blocks.append((st, t, blk["l"], blk["x"]))
            fn.blocks = blocks
            self.bypath[p] = fn
            if fn.name in self.fns and self.fns[fn.name].path != p:
                # disambiguate by impl self / crate; keep the first, store the second under its full path
                self.collisions.append((fn.name, p, self.fns[fn.name].path))
                if known_names().get(fn.name) == p:
                    old = self.fns[fn.name]
                    old.name = old.path
                    self.fns[old.name] = old
                else:
                    fn.name = p
            self.fns[fn.name] = fn
        for im in d["impls"]:
            self.impls.append({
                "tr": short(im["tr"]), "self": ty(im["self"]), "a": [ty(x) for x in im["a"]],
                "m": im["m"], "exp": im["exp"], "crate": crate, "span": im["span"],
            })

    def fn(self, name):
        return self.fns.get(name)

    # ---- trait method resolution on (substituted) types
    def match(self, pat, t, env):
        if pat[0] == "param":
            if pat[1] in env:
                return env[pat[1]] == t
            env[pat[1]] = t
            return True
        if not isinstance(t, tuple) or pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("adt", "closure", "fndef"):
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.match(a, b, env) for a, b in zip(pat[2], t[2]))
        if k in ("ref", "ptr"):
            return pat[1] == t[1] and self.match(pat[2], t[2], env)
        if k == "tup":
            return len(pat[1]) == len(t[1]) and all(self.match(a, b, env) for a, b in zip(pat[1], t[1]))
        if k == "slice":
            return self.match(pat[1], t[1], env)
        if k == "array":
            return self.match(pat[1], t[1], env)
        return pat == t

    def resolve_trait(self, trait, method, targs):
        """targs: [Self, trait params...] -> (Fn, env) or None"""
        if not targs:
            return None
        if targs[0][0] == "param":
            return None
        for im in self.impls:
            if im["tr"] != trait or method not in im["m"]:
                continue
            env = {}
            n = min(len(im["a"]), len(targs))
            if all(self.match(p, t, env) for p, t in zip(im["a"][:n], targs[:n])):
                f = self.bypath.get(im["m"][method])
                if f is not None:
                    return f, env
        return None

    # ---- loops
    def loops(self, fn):
        if fn._loops is not None:
            return fn._loops
        n = len(fn.blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(fn.blocks):
            if b is None:
                continue
            t = b[1]
            k = t[0]
            if k == "goto":
                succ[i] = [t[1]]
            elif k == "switch":
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == "call":
                succ[i] = [t[4]] if t[4] is not None else []
            elif k == "assert":
                succ[i] = [t[3]]
        # dominators (simple iterative)
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                adv = False
                for v in it:
                    if v not in seen and fn.blocks[v] is not None:
                        seen.add(v)
                        st.append((v, iter(succ[v])))
                        adv = True
                        break
                if not adv:
                    order.append(u)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for u in rpo:
            for v in succ[u]:
                if v in preds:
                    preds[v].append(u)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if v in idom and dom(v, u):
                    body = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        fn._loops = loops
        return loops


def load(out, f64=False):
    d = os.path.join(out, "f32")
    files = [os.path.join(out, "f64" if f64 else "f32", "jagua_rs.json")]
    if not f64:
        files += [os.path.join(d, "lbf.json"), os.path.join(d, "lbf-bin.json")]
    P = Program(files)
    P = align(P, files)
    P.f64 = f64
    return P


def align(P, files):
    """undo renamings of types, fields and functions; note what else changed shape"""
    S = shapes()
    P.extra, P.gone_fields, P.retyped, P.gone_fns, P.resigned = set(), set(), set(), set(), set()
    if not S:
        return P
    cur = shape_of(P)
    paths, fields = [], {}
    # types
    new = [n for n in cur["adts"] if n not in S["adts"]]
    for n in S["adts"]:
        if n in cur["adts"] or any(p.startswith("lbf") for p in [S["adts"][n]["path"]]) and P_f64(P):
            continue
        b = S["adts"][n]
        c = [m for m in new if [[v, [f for f, _ in fs]] for v, fs in cur["adts"][m]["variants"]] == [[(v if b["kind"] == "enum" else m), [f for f, _ in fs]] for v, fs in b["variants"]]]
        if len(c) == 1:
            paths.append((cur["adts"][c[0]]["path"], b["path"]))
    if paths:
        P = Program(files, paths)
        P.extra, P.gone_fields, P.retyped, P.gone_fns, P.resigned = set(), set(), set(), set(), set()
        cur = shape_of(P)
    # fields
    allcur = {f for a in cur["adts"].values() for _, fs in a["variants"] for f, _ in fs}
    for n, b in S["adts"].items():
        if n not in cur["adts"]:
            continue
        cv = {v: fs for v, fs in cur["adts"][n]["variants"]}
        for v, fs in b["variants"]:
            if v not in cv:
                continue
            ren, came, gone, ret = match_fields([tuple(x) for x in fs], [tuple(x) for x in cv[v]])
            for a, o in ren.items():
                fields[(n, a)] = o
            P.extra |= {(n, f) for f in came}
            P.gone_fields |= set(gone)
            P.retyped |= set(ret)
    if fields:
        keep = P.extra, P.gone_fields, P.retyped
        P = Program(files, paths, fields)
        P.extra, P.gone_fields, P.retyped = keep
        P.gone_fns, P.resigned = set(), set()
        cur = shape_of(P)
    # functions
    f64 = P_f64(P)
    new = [n for n in cur["fns"] if n not in S["fns"]]
    fp = []
    for n, b in S["fns"].items():
        if f64 and not b["path"].startswith(("jagua_rs", "<")) or n in cur["fns"]:
            continue
        pre = n.rpartition("::")[0]
        c = [m for m in new if m.rpartition("::")[0] == pre and cur["fns"][m]["sig"] == b["sig"] and (not b["callers"] or set(b["callers"]) & set(cur["fns"][m]["callers"]))]
        if len(c) == 1:
            fp.append((cur["fns"][c[0]]["path"], b["path"]))
    if fp:
        keep = P.extra, P.gone_fields, P.retyped
        P = Program(files, paths + fp, fields)
        P.extra, P.gone_fields, P.retyped = keep
        P.gone_fns, P.resigned = set(), set()
        cur = shape_of(P)
    for n, b in S["fns"].items():
        if n not in cur["fns"]:
            if not f64:
                P.gone_fns.add(n)
        elif cur["fns"][n]["sig"] != b["sig"] and not f64:
            P.resigned.add(n)
    return P


def P_f64(P):
    return not any(f.crate.startswith("lbf") for f in P.fns.values())
