"""The store of remembered transitions itself (C10): every pair kept in it stays a pair that was remembered."""
from .analysis import *
from .ops import *

RULES = {}
CA = "arche_tape::world::AddRemoveCache::"
F_CACHE, F_LOOKUP, F_ARRAY, F_LEN = pf("cache"), pf("lookup"), pf("array"), pf("len")


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def array_len(an):
    """Number of slots of the recent-transitions array, from the types the store's functions are compiled with."""
    found = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "adt" and x.get("path", "").endswith("::ArrayVec"):
                for y in x.get("args", ()):
                    if y.get("k") == "const" and isinstance(y.get("v"), int):
                        found.add(y["v"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for name in ("lookup_id", "insert_id", "new"):
        f = an.prog.get(CA + name)
        if f is not None:
            walk(f.body)
    return found.pop() if len(found) == 1 else None


def init(cx, st, args, slots=None):
    c = fld(T("at", args[0]), "cache")
    if slots is not None:
        st = st.assume(eq(vlen(fld(c, "array")), I(slots), True), True)
    st = st.assume(le(fld(c, "len"), vlen(fld(c, "array"))), True)
    return st.assume(le(I(0), fld(c, "len")), True)


class Slots:
    """Content of the recent-transitions array after the writes of one abstract path, one slot at a time."""

    def __init__(self, cx, st, me):
        self.cx, self.me = cx, me
        self.c0 = fld(me, "cache")
        self.arr0 = fld(self.c0, "array")
        self.len0 = fld(self.c0, "len")
        self.len = self.len0
        self.ops = []
        self.unclear = None
        self.esz = None
        for e in st.events:
            self.step(e)

    def off(self, ptr):
        """Slot number a pointer into the array stands for."""
        k = I(0)
        while ptr.op in ("padd", "poff"):
            o = ptr.args[1]
            c, d = parts(o)
            if c != 0 or ptr.op == "poff":
                return None
            for m, n in d.items():
                fs = m.args if m.op == "mul" else (m,)
                sz = [f for f in fs if f.op == "sizeof"]
                if len(sz) != 1:
                    return None
                self.esz = sz[0]
                q = exact_div(mk(0, {m: n}), sz[0])
                if q is None:
                    return None
                k = add(k, q)
            ptr = ptr.args[0]
        root, p = refpath(ptr)
        if root.op != "obj" or T("at", root.args[0]) is not self.me or tuple(p[:2]) != (F_CACHE, F_ARRAY):
            return None
        if len(p) == 3 and p[2].op == "pi":
            return add(k, p[2].args[0])
        return k if len(p) == 2 else None

    def mine(self, v):
        root, p = refpath(v)
        return root.op == "obj" and T("at", root.args[0]) is self.me and p and p[0] is F_CACHE

    def step(self, e):
        if e[0] == "w" and T("at", e[1].args[0]) is self.me and e[2] and e[2][0] is F_CACHE:
            p = e[2]
            if p[1:] == (F_LEN,):
                self.len = e[3]
            elif len(p) >= 3 and p[1] is F_ARRAY and p[2].op == "pi":
                f = p[3].args[0] if len(p) == 4 and p[3].op == "pf" else None
                if len(p) > 4 or (len(p) == 4 and f is None):
                    self.unclear = e
                self.ops.append(("w", p[2].args[0], f, e[3]))
            else:
                self.unclear = e
        elif e[0] in ("copy", "copyn", "copy_nonoverlapping"):
            a, b = self.off(e[2]), self.off(e[3])
            n = exact_div(e[4], self.esz) if self.esz is not None else None
            if b is None and not self.mine(e[3]):
                return
            if a is None or b is None or n is None:
                self.unclear = e
            else:
                self.ops.append(("copy", a, b, n))
        elif e[0] in ("loop", "call", "unknown", "havoc", "swap"):
            if e[0] == "loop":
                L = self.cx.loops[e[1]]
                for st, _ in L.iters:
                    for f in L.events(st):
                        if f[0] == "w" and T("at", f[1].args[0]) is self.me or f[0] not in ("w", "loop", "drop"):
                            self.unclear = f
            else:
                self.unclear = e

    def at(self, st, i, n=None):
        """[(state, first, second)] : what slot i holds; the path is split where the slot depends on i."""
        return self.pair(st, i, len(self.ops), {})

    def pair(self, st, i, n, got):
        if "0" in got and "1" in got:
            return [(st, got["0"], got["1"])]
        if n == 0:
            g = dict(got)
            for f in ("0", "1"):
                g.setdefault(f, ("old", i))
            return [(st, g["0"], g["1"])]
        op = self.ops[n - 1]
        out = []
        if op[0] == "w":
            _, k, f, val = op
            a = st.assume(eq(i, k, True), True)
            b = st.assume(eq(i, k, True), False)
            if b is not None:
                out += self.pair(b, i, n - 1, got)
            if a is not None:
                g = dict(got)
                for x in ("0", "1"):
                    if f is None:
                        g.setdefault(x, ("val", self.field(val, x)))
                    elif f == x:
                        g.setdefault(x, ("val", val))
                out += self.pair(a, i, n - 1, g)
            return out
        _, src, dst, cnt = op
        c1, c2 = le(dst, i), lt(i, add(dst, cnt))
        b = st.assume(c1, False)
        if b is not None:
            out += self.pair(b, i, n - 1, got)
        a = st.assume(c1, True)
        if a is not None:
            b = a.assume(c2, False)
            if b is not None:
                out += self.pair(b, i, n - 1, got)
            a = a.assume(c2, True)
            if a is not None:
                out += self.pair(a, add(src, sub(i, dst)), n - 1, got)
        return out

    def field(self, v, f):
        return fld(v, f)


def slot_of(sl, v, f):
    """Slot whose field f an (original) value is."""
    if v.op == "fld" and v.args[1] == f and v.args[0].op == "vget" and v.args[0].args[0] is sl.arr0:
        return v.args[0].args[1]
    return None


def related(sl, st, x, y, given):
    """Is (x, y) a remembered pair?  x, y: ('old', slot) | ('val', term).  -> True/False/None"""
    def slot(z, f):
        return z[1] if z[0] == "old" else slot_of(sl, z[1], f)

    def term(z, f):
        return T("fld", T("vget", sl.arr0, z[1]), f) if z[0] == "old" else z[1]
    i, j = slot(x, "0"), slot(y, "1")
    for k in (i, j):
        if k is not None and not (st.decide(lt(k, sl.len0)) is True and st.decide(le(I(0), k)) is not False):
            return False, "slot %s is used although it was never filled" % short(k, 40)
    if i is not None and j is not None and (i is j or st.decide(eq(i, j, True)) is True):
        return True, ""
    a, b = term(x, "0"), term(y, "1")
    if given and st.decide(eq(a, given[0])) is True and st.decide(eq(b, given[1], True)) is True:
        return True, ""
    if j is not None and st.decide(eq(a, T("fld", T("vget", sl.arr0, j), "0"))) is True:
        return True, ""
    if b.op == "mget" and b.args[0] is fld(sl.me, "lookup"):
        if st.decide(eq(a, b.args[1])) is True:
            return True, ""
        return False, "the group of %s is kept for %s" % (short(b.args[1], 30), short(a, 40))
    known = j is not None or b.op in ("int", "lin", "mlen", "vlen") or b is sl.len0 or (given and b is given[1])
    return (False if known else None), "%s is kept for %s" % (short(b, 50), short(a, 50))


def run(an, rep, path, given):
    n = array_len(an)
    r = an.root(path, facts=lambda cx, st, args: init(cx, st, args, n), tag="cache", inline=(path,))
    if r is None:
        rep.und("transition-store", path, "not analysed")
        return None
    return r


def kept(rep, where, cx, s, me, given, sl):
    if tainted(cx, s.events) or sl.unclear is not None:
        rep.und("pairs", where, "writes to the recent transitions not recognised" + (": %s" % (sl.unclear[0],) if sl.unclear else ""))
        return
    if not sl.ops and sl.len is sl.len0:
        rep.ok("pairs", where)
        return
    i = T("sym", "slot")
    st = s.assume(le(I(0), i), True)
    st = st.assume(lt(i, sl.len), True) if st is not None else None
    bad = und = None
    if st is not None:
        for s2, x, y in sl.at(st, i):
            d, why = related(sl, s2, x, y, given)
            if d is False:
                bad = bad or why
            elif d is None:
                und = und or why
    if bad:
        rep.bad("pairs", where, "a recent transition is no longer a remembered one: " + bad)
    elif und:
        rep.und("pairs", where, und)
    elif s.decide(le(sl.len, vlen(sl.arr0))) is False:
        rep.bad("pairs", where, "more recent transitions are counted than there are slots")
    elif s.decide(le(sl.len, vlen(sl.arr0))) is not True:
        rep.und("pairs", where, "the number of recent transitions is not recognised: %s" % short(sl.len, 60))
    else:
        rep.ok("pairs", where)


def lookup_map(rep, where, s, cx, sl, given):
    """The full map only ever holds remembered pairs."""
    m = cx.read(s, T("obj", sl.me.args[0]), (F_LOOKUP,))
    m0 = fld(sl.me, "lookup")
    while m is not m0:
        if m.op != "mins":
            rep.und("pairs", where, "map of transitions not recognised: %s" % short(m, 60))
            return None
        d, why = related(sl, s, ("val", m.args[1]), ("val", m.args[2]), given)
        if d is not True:
            (rep.bad if d is False else rep.und)("pairs", where, "the map of transitions: " + why)
            return None
        m = m.args[0]
    rep.ok("pairs", where)
    return True


@rule("C10")
def lookup(an, rep):
    path = CA + "lookup_id"
    r = run(an, rep, path, None)
    if r is None:
        return
    cx = r.cx
    me = T("at", r.args[0])
    idt = r.args[1]
    m0 = fld(me, "lookup")
    for s, v in r.rets():
        sl = Slots(cx, s, me)
        kept(rep, path, cx, s, me, None, sl)
        lookup_map(rep, path, s, cx, sl, None)
        var = s.variant(v)
        if var == "None":
            if tainted(cx, s.events):
                rep.und("found", path, "an unknown function runs on this path")
            elif s.decide(T("has", m0, idt)) is False:
                rep.ok("found", path)
            else:
                rep.bad("found", path, "a remembered transition can be reported as unknown")
        elif var == "Some":
            x = vfld(v, "Some", "0")
            d, why = related(sl, s, ("val", idt), ("val", x), None)
            if d is True and x.op == "mget" and s.decide(T("has", m0, idt)) is not True:
                d, why = False, "a group is reported for a transition that was never remembered"
            (rep.ok("found", path) if d is True else (rep.bad if d is False else rep.und)("found", path, why))
        else:
            rep.und("found", path, "result not recognised: %s" % short(v, 60))


@rule("C10")
def insert(an, rep):
    path = CA + "insert_id"
    r = run(an, rep, path, None)
    if r is None:
        return
    cx = r.cx
    me = T("at", r.args[0])
    given = (r.args[1], r.args[2])
    m0 = fld(me, "lookup")
    for s, v in r.rets():
        sl = Slots(cx, s, me)
        kept(rep, path, cx, s, me, given, sl)
        if not lookup_map(rep, path, s, cx, sl, given):
            continue
        m = cx.read(s, T("obj", me.args[0]), (F_LOOKUP,))
        ok = s.decide(T("has", m0, given[0])) is True
        while m is not m0:
            if s.decide(eq(m.args[1], given[0])) is True:
                ok = True
            m = m.args[0]
        if tainted(cx, s.events):
            rep.und("remembered", path, "an unknown function runs on this path")
        else:
            rep.check(ok, "remembered", path, "the transition is not kept in the map of transitions")


@rule("C10")
def fresh(an, rep):
    path = CA + "new"
    r = an.root(path, tag="cache", inline=(path,))
    if r is None:
        rep.und("fresh", path, "not analysed")
        return
    for s, v in r.rets():
        m = fld(v, "lookup")
        n = fld(fld(v, "cache"), "len")
        if m.op == "mnew" and n is I(0):
            rep.ok("fresh", path)
        else:
            (rep.bad if n.op == "int" and n.args[0] > 0 or m.op == "mins" else rep.und)("fresh", path, "a new store of transitions is not empty: %s" % short(v, 80))


@rule("C10")
def new_groups(an, rep):
    """A derived group starts with no remembered transitions: those of the group it was made from lead elsewhere."""
    for name in ("from_archetype", "from_archetype_with", "from_archetype_without"):
        path = "arche_tape::world::Archetype::" + name
        r = an.root(path, inline=("arche_tape::world::Archetype::from_archetype",), tag="ctor") if an.has(path) else None
        if r is None:
            rep.und("fresh-group", path, "not analysed")
            continue
        for s, v in r.rets():
            c = fld(v, "add_remove_cache")
            if c.op == "cache_new":
                rep.ok("fresh-group", path)
            else:
                (rep.bad if c.op in ("fld", "vget", "clone") else rep.und)("fresh-group", path, "a derived group starts with the transitions %s" % short(c, 60))
