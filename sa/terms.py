"""Hash-consed terms: the value domain of the analysis (global value numbering with linear integer forms)."""

_tab = {}


class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        _tab[k] = t
    return t


def I(n):
    return T("int", n)


TRUE = T("true")
FALSE = T("false")
UNIT = T("agg", "tuple", 0, "", ())
UNDEF = T("undef")


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- linear integer forms
def parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T("lin", c, items)


def add(a, b):
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return mk(c1 + c2, d)


def scale(a, n):
    c, d = parts(a)
    return mk(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def _mono(a, b):
    fa = a.args if a.op == "mul" else (a,)
    fb = b.args if b.op == "mul" else (b,)
    return T("mul", *sorted(fa + fb, key=lambda x: x.id))


def mul(a, b):
    c1, d1 = parts(a)
    c2, d2 = parts(b)
    d = {}
    for k, v in d1.items():
        d[k] = d.get(k, 0) + v * c2
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v * c1
    for k1, v1 in d1.items():
        for k2, v2 in d2.items():
            m = _mono(k1, k2)
            d[m] = d.get(m, 0) + v1 * v2
    return mk(c1 * c2, d)


def _divmono(m, f):
    """m / f when the factor f occurs in monomial m, else None (1 is returned as None-term marker 1)."""
    if m is f:
        return 1
    if m.op == "mul":
        l = list(m.args)
        fs = list(f.args) if f.op == "mul" else [f]
        for x in fs:
            if x in l:
                l.remove(x)
            else:
                return None
        if not l:
            return 1
        return l[0] if len(l) == 1 else T("mul", *l)
    return None


def exact_div(x, f):
    """x / f as a linear form when every monomial contains f; None otherwise."""
    c, d = parts(x)
    cf, df = parts(f)
    if not df:
        if cf == 0:
            return None
        if c % cf == 0 and all(v % cf == 0 for v in d.values()):
            return mk(c // cf, {k: v // cf for k, v in d.items()})
        return None
    if cf != 0 or len(df) != 1:
        return I(1) if x is f else None
    (m, k), = df.items()
    if c != 0:
        return None
    cc, out = 0, {}
    for mm, v in d.items():
        q = _divmono(mm, m)
        if q is None or v % k:
            return None
        if q == 1:
            cc += v // k
        else:
            out[q] = out.get(q, 0) + v // k
    return mk(cc, out)


def div(a, b):
    if a.op == "int" and b.op == "int" and b.args[0]:
        return I(a.args[0] // b.args[0])
    q = exact_div(a, b)
    if q is not None:
        return q
    return T("div", a, b)


def rem(a, b):
    if a.op == "int" and b.op == "int" and b.args[0]:
        return I(a.args[0] % b.args[0])
    if exact_div(a, b) is not None:
        return I(0)
    return T("rem", a, b)


# ---------------------------------------------------------------- booleans
def le0(p):
    c, d = parts(p)
    if not d:
        return B(c <= 0)
    return T("le0", p)


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def le(a, b):
    return le0(sub(a, b))


def is_int(t):
    return t.op in ("int", "lin", "mul", "vlen", "div", "rem", "min", "max", "K", "sizeof", "alignof",
                    "cap", "trailing_zeros", "shl", "shr", "band", "bor", "bxor", "bnot", "wadd", "wsub", "trunc")


def eq(a, b, ints=False):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return FALSE
    if ints or is_int(a) or is_int(b):
        p = sub(a, b)
        c, d = parts(p)
        if not d:
            return B(c == 0)
        # sign normalisation
        k = min(d, key=lambda x: x.id)
        if d[k] < 0:
            p = scale(p, -1)
        return T("eq0", p)
    if a.op in ("true", "false") and b.op in ("true", "false"):
        return FALSE
    if b is TRUE:
        return a
    if a is TRUE:
        return b
    if b is FALSE:
        return neg(a)
    if a is FALSE:
        return neg(b)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[4:], b.args[4:]):
            r = conj(r, eq(x, y))
        return r
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def conj(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return T("and", a, b)


def neg(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return le0(sub(I(1), a.args[0]))
    return T("not", a)


# ---------------------------------------------------------------- aggregates
def agg(path, vidx, vname, fields, vals):
    return T("agg", path, vidx, vname, tuple(fields), *vals)


def tup(*vals):
    return agg("tuple", 0, "", tuple(str(i) for i in range(len(vals))), vals)


def some(v):
    return agg("std::option::Option", 1, "Some", ("0",), (v,))


NONE = agg("std::option::Option", 0, "None", (), ())


def ok(v):
    return agg("std::result::Result", 0, "Ok", ("0",), (v,))


def err(v):
    return agg("std::result::Result", 1, "Err", ("0",), (v,))


def fld(t, name):
    if t.op == "agg":
        f = t.args[3]
        if name in f:
            return t.args[4 + f.index(name)]
        return T("fld", t, name)
    if t.op == "with":
        for k, v in t.args[1]:
            if k == name:
                return v
        return fld(t.args[0], name)
    if t.op == "ite":
        a, b = fld(t.args[1], name), fld(t.args[2], name)
        return a if a is b else T("ite", t.args[0], a, b)
    if t.op == "vget" and name == "0" and t.args[0].op == "fld" and t.args[0].args[1] == "component_storages":
        # representation invariant of a storage group (established by the constructors): ids of the columns = comp_ids
        return T("vget", fld(t.args[0].args[0], "comp_ids"), t.args[1])
    return T("fld", t, name)


def withf(t, name, v):
    if t.op == "agg" and name in t.args[3]:
        i = 4 + t.args[3].index(name)
        return T("agg", *(t.args[:i] + (v,) + t.args[i + 1:]))
    if t.op == "with":
        base, d = t.args[0], dict(t.args[1])
    else:
        base, d = t, {}
    if fld(base, name) is v:
        d.pop(name, None)
    else:
        d[name] = v
    if not d:
        return base
    return T("with", base, tuple(sorted(d.items(), key=lambda x: x[0])))


def vkey(vname, fname):
    return vname + "." + fname


# variant payload access: keyed "Variant.field"
def vfld(t, vname, fname):
    if t.op == "agg":
        return fld(t, fname)
    return fld(t, vkey(vname, fname))


def withv(t, vname, fname, v):
    if t.op == "agg":
        return withf(t, fname, v)
    return withf(t, vkey(vname, fname), v)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(a for a in x.args if isinstance(a, (Term, tuple)))


def contains(t, u):
    return any(x is u for x in subterms(t))


def subst(t, m, memo=None):
    """Replace terms by the mapping m (bottom-up, linear forms are rebuilt)."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == "lin":
        r = I(t.args[0])
        for a, k in t.args[1]:
            r = add(r, scale(subst(a, m, memo), k))
    elif t.op == "mul":
        r = I(1)
        for a in t.args:
            r = mul(r, subst(a, m, memo))
    else:
        na = tuple(subst(a, m, memo) for a in t.args)
        if na == t.args:
            r = t
        elif t.op == "le0":
            r = le0(na[0])
        elif t.op == "eq":
            r = eq(*na)
        elif t.op == "eq0":
            r = eq(na[0], I(0))
        elif t.op == "not":
            r = neg(na[0])
        elif t.op == "fld":
            r = fld(*na)
        else:
            r = T(t.op, *na)
    memo[t] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "lin":
        out = ""
        for m, k in a[1]:
            sg = "+" if k > 0 else "-"
            k = abs(k)
            out += (" %s " % sg if out else ("-" if sg == "-" else "")) + ("" if k == 1 else "%d*" % k) + s(m)
        if a[0]:
            out += " %s %d" % ("+" if a[0] > 0 else "-", abs(a[0]))
        return out
    if op == "mul":
        return "*".join(s(x) for x in a)
    if op in ("true", "false"):
        return op
    if op == "sym":
        return str(a[0])
    if op == "le0":
        return "[" + s(a[0]) + " <= 0]"
    if op == "eq0":
        return "[" + s(a[0]) + " == 0]"
    if op == "eq":
        return "[" + s(a[0]) + " == " + s(a[1]) + "]"
    if op == "not":
        return "!" + s(a[0])
    if op == "agg":
        n = show(a[2]) if isinstance(a[2], Term) else (a[2] or a[0].split("::")[-1])
        if n == "tuple" or n == "array":
            return ("(" if n == "tuple" else "[") + ", ".join(s(x) for x in a[4:]) + (")" if n == "tuple" else "]")
        if not a[3]:
            return n
        if all(f.isdigit() for f in a[3]):
            return n + "(" + ", ".join(s(x) for x in a[4:]) + ")"
        return n + "{" + ", ".join("%s: %s" % (f, s(x)) for f, x in zip(a[3], a[4:])) + "}"
    if op == "fld":
        return s(a[0]) + "." + a[1]
    if op == "with":
        return s(a[0]) + "{" + ", ".join("%s:=%s" % (k, s(v)) for k, v in a[1]) + "}"
    if op == "ref":
        return "&" + s(a[0]) + "".join(s(x) for x in a[1:])
    if op == "pf":
        return "." + a[0]
    if op == "pv":
        return "." + a[0]
    if op == "pi":
        return "[" + s(a[0]) + "]"
    if op == "pm":
        return "{" + s(a[0]) + "}"
    if op == "pslice":
        return "[" + s(a[0]) + ".." + s(a[1]) + "]"
    if op == "loc":
        return "_%s#%s" % (a[1], a[0])
    if op == "obj":
        return "*" + s(a[0])
    if op == "at":
        return "@" + s(a[0])
    if op == "vget":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if op == "vlen":
        return "len(" + s(a[0]) + ")"
    if op == "K":
        return "k%s" % a[0]
    return op + "(" + ", ".join(s(x) for x in a) + ")"
