"""The fixed-capacity vector (C25): a sequence of at most LEN values kept in the first slots of an array."""
from .analysis import *
from .ops import *

RULES = {}
AV = "arche_tape::array_vec::ArrayVec::"
DROP = "<arche_tape::array_vec::ArrayVec as std::ops::Drop>::drop"
F_ARRAY, F_LEN = pf("array"), pf("len")
CAP = T("cparam", "LEN")


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def init(cx, st, args):
    me = T("at", args[0])
    for f in (le(I(0), fld(me, "len")), le(fld(me, "len"), CAP), eq(vlen(fld(me, "array")), CAP, True)):
        st = st.assume(f, True)
    return st


def run(an, rep, path, me=True):
    r = an.root(path, facts=init if me else None, tag="arrayvec", inline=(path,)) if an.has(path) else None
    if r is None:
        rep.und("array", path, "not analysed: %s" % an.errors.get(path, "not found"))
        return None
    rep.functions.add(path)
    rep.paths += len(r.res)
    return r


class Seq:
    """The slots after the writes of one abstract path."""

    def __init__(self, cx, s, me):
        self.cx, self.s, self.me = cx, s, me
        self.len0 = fld(me, "len")
        self.len = self.len0
        self.ops = []           # ("w", slot, value) | ("copy", src, dst, n)
        self.drops = []         # (slot, ops done before, length then)
        self.reads = []         # (slot, value, ops done before, length then)
        self.unclear = None
        self.bad = None
        for e in s.events:
            self.step(e)

    def mine(self, v):
        root, p = refpath(base(v))
        return root.op == "obj" and T("at", root.args[0]) is self.me

    def slot(self, ptr):
        k = I(0)
        while ptr.op == "padd":
            q = elems(ptr.args[1])
            if q is None:
                return None
            k = add(k, q)
            ptr = ptr.args[0]
        root, p = refpath(ptr)
        if root.op != "obj" or T("at", root.args[0]) is not self.me or not p or p[0] is not F_ARRAY:
            return None
        if len(p) == 1:
            return k
        if len(p) == 2 and p[1].op == "pi":
            return add(k, p[1].args[0])
        return None

    def inside(self, a, n, what):
        """slots a .. a+n lie in the array"""
        d = self.s.decide(le(add(a, n), CAP))
        if d is not True and not (n is I(0)):
            why = "%s reaches slot %s of %s" % (what, short(add(a, n), 50), "LEN")
            if d is False or self.free(add(a, n)):
                self.bad = self.bad or why
            else:
                self.unclear = self.unclear or why
        if self.s.decide(le(I(0), a)) is False:
            self.bad = self.bad or "%s starts before the array" % what

    def free(self, t):
        """Is t made of the length, the capacity and arguments only (so a counterexample is real)?"""
        _, d = parts(t)
        return all(m is self.len0 or m is CAP or m.op == "sym" or (m.op in ("min", "max") and all(self.free(x) for x in m.args)) for m in d)

    def step(self, e):
        k = e[0]
        if k == "w":
            if T("at", e[1].args[0]) is not self.me if e[1].op == "obj" else True:
                return
            p = tuple(e[2])
            if p == (F_LEN,):
                self.len = e[3]
            elif len(p) == 2 and p[0] is F_ARRAY and p[1].op == "pi":
                self.inside(p[1].args[0], I(1), "a write")
                self.ops.append(("w", p[1].args[0], e[3]))
            else:
                self.unclear = "write to %s" % short(T("ref", e[1], *p), 50)
        elif k in ("copy", "copyn", "copy_nonoverlapping"):
            src, dst, bytes_ = e[2], e[3], e[4]
            if not self.mine(dst) and not self.mine(src):
                return
            a, b, n = self.slot(src), self.slot(dst), elems(bytes_)
            if a is None or b is None or n is None:
                self.unclear = "copy not recognised"
                return
            self.inside(a, n, "a copy's source")
            self.inside(b, n, "a copy's destination")
            if k == "copyn" or e[1] == "copy_nonoverlapping" or k == "copy_nonoverlapping":
                ok = self.s.decide(le(add(a, n), b)) is True or self.s.decide(le(add(b, n), a)) is True
                if not ok and self.s.decide(le(n, I(0))) is not True:
                    self.bad = self.bad or "a copy between overlapping slots is declared not to overlap"
            self.ops.append(("copy", a, b, n))
        elif k == "dropinplace":
            if not self.mine(e[1]):
                return
            a = self.slot(e[1])
            if a is None:
                self.unclear = "what is dropped is not recognised"
            else:
                self.drops.append((a, len(self.ops), self.len, e))
        elif k == "drop":
            j = dropped_slot(self, e)
            if j is not None:
                self.drops.append((j, len(self.ops), self.len, e))
        elif k == "memread":
            if not self.mine(e[1]):
                return
            a = self.slot(e[1])
            if a is None:
                self.unclear = "read not recognised"
            else:
                self.reads.append((a, len(self.ops), self.len, e))
        elif k == "memwrite":
            if not self.mine(e[1]):
                return
            a = self.slot(e[1])
            v = next((x for x in e[2:] if isinstance(x, Term)), None)
            if a is None or v is None:
                self.unclear = "write not recognised"
            else:
                self.inside(a, I(1), "a write")
                self.ops.append(("w", a, e[-1] if isinstance(e[-1], Term) else v))
        elif k in ("unknown", "havoc", "swap", "loop", "tcall"):
            self.unclear = self.unclear or "%s" % (k,)

    def at(self, s, i, n=None):
        """[(state, value)]: what slot i holds: ('old', slot) or ('val', term)"""
        n = len(self.ops) if n is None else n
        if n == 0:
            return [(s, ("old", i))]
        op = self.ops[n - 1]
        out = []
        if op[0] == "w":
            a, b = s.assume(eq(i, op[1], True), True), s.assume(eq(i, op[1], True), False)
            if b is not None:
                out += self.at(b, i, n - 1)
            if a is not None:
                out.append((a, ("val", op[2])))
            return out
        _, src, dst, cnt = op
        c1, c2 = le(dst, i), lt(i, add(dst, cnt))
        b = s.assume(c1, False)
        if b is not None:
            out += self.at(b, i, n - 1)
        a = s.assume(c1, True)
        if a is not None:
            b = a.assume(c2, False)
            if b is not None:
                out += self.at(b, i, n - 1)
            a = a.assume(c2, True)
            if a is not None:
                out += self.at(a, add(src, sub(i, dst)), n - 1)
        return out


def dropped_slot(sq, e):
    """slot whose value is dropped as a value (after it was read out)"""
    for x in e[1:]:
        while isinstance(x, Term) and x.op == "adt" and len(x.args) >= 1:
            ys = [y for y in x.args if isinstance(y, Term)]
            if len(ys) != 1:
                break
            x = ys[0]
        if isinstance(x, Term):
            for y in walk_terms(x):
                if y.op == "vget" and y.args[0] is fld(sq.me, "array"):
                    return y.args[1]
    return None


def walk_terms(x):
    yield x
    if x.op not in ("vget", "fld", "at", "ref"):
        for y in x.args:
            if isinstance(y, Term):
                yield from walk_terms(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Term):
                        yield from walk_terms(z)


def base(v):
    while v.op in ("padd", "poff"):
        v = v.args[0]
    return v


def elems(b):
    """number of values in a number of bytes"""
    c, d = parts(b)
    if c == 0 and not d:
        return I(0)
    for m in d:
        for f in (m.args if m.op == "mul" else (m,)):
            if f.op == "sizeof":
                q = exact_div(b, f)
                if q is not None:
                    return q
    return None


def old(sq, v):
    """slot an (original) value was in"""
    if v[0] == "old":
        return v[1]
    x = v[1]
    if x.op == "vget" and x.args[0] is fld(sq.me, "array"):
        return x.args[1]
    return None


def same(s, a, b):
    return a is b or s.decide(eq(a, b, True)) is True


def content(rep, path, sq, newlen, want):
    """newlen: expected length; want(s, i) -> expected value of slot i, ('old', j) or ('val', t), or a list of (cond, value)."""
    s = sq.s
    if sq.bad:
        rep.bad("in-bounds", path, sq.bad)
        return
    if sq.unclear:
        rep.und("in-bounds", path, sq.unclear)
        return
    rep.ok("in-bounds", path)
    if not same(s, sq.len, newlen):
        free = sq.free(sub(sq.len, newlen))
        (rep.bad if free or s.decide(eq(sq.len, newlen, True)) is False else rep.und)("length", path, "the length becomes %s instead of %s" % (short(sq.len, 50), short(newlen, 50)))
        return
    rep.ok("length", path)
    i = T("sym", "slot")
    st = s.assume(le(I(0), i), True)
    st = st.assume(lt(i, newlen), True) if st is not None else None
    if st is None:
        rep.ok("content", path)
        return
    bad = None
    for s1, v in sq.at(st, i):
        for s2, w in want(s1, i):
            if s2 is None:
                continue
            if w[0] == "old":
                j = old(sq, v)
                if j is None or not same(s2, j, w[1]):
                    bad = "slot %s holds %s instead of what was in slot %s" % (short(i, 20), "the value of slot %s" % short(j, 30) if j is not None else short(v[1], 40), short(w[1], 30))
            elif v[0] != "val" or v[1] is not w[1]:
                bad = "slot %s does not hold the value given" % short(i, 20)
    rep.check(bad is None, "content", path, bad or "")


def split(s, c, a, b):
    return [(s.assume(c, True), a), (s.assume(c, False), b)]


def no_panic(rep, r, path, allowed=()):
    for s, v in r.panics():
        if any(e[0] in ("loop", "unknown") for e in s.events):
            rep.und("no-panic", path, "a loop that could panic is not recognised")
            continue
        why = v[0] if isinstance(v, tuple) else str(v)
        if s.decide(le(CAP, I(0))) is True:
            rep.ok("no-panic", path)        # no room for any value at all
            continue
        (rep.und if r.cx.unknown else rep.bad)("no-panic", path, "panics (%s)" % (str(why)[:60],))


def nodrop(rep, path, sq):
    if sq.drops:
        rep.bad("drops", path, "a value that stays is dropped (slot %s)" % short(sq.drops[0][0], 40))
    else:
        rep.ok("drops", path)


@rule("C25")
def new(an, rep):
    path = AV + "new"
    r = run(an, rep, path, me=False)
    if r is None:
        return
    for s, v in r.rets():
        n = fld(v, "len")
        if n is I(0):
            rep.ok("empty", path)
        else:
            (rep.bad if n.op in ("int", "cparam", "lin") else rep.und)("empty", path, "a new vector has length %s" % short(n, 40))


def push_like(an, rep, path, front):
    r = run(an, rep, path)
    if r is None:
        return
    data = r.args[1]
    for s, v in r.rets():
        sq = Seq(r.cx, s, T("at", r.args[0]))
        full = s.decide(le(CAP, sq.len0))
        keepall = lambda s1, i: [(s1, ("old", i))]
        owndrops = [e for e, _ in all_events(r.cx, s.events) if e[0] == "drop" and data in e]
        if not front:
            var = s.variant(v)
            if var == "Ok":
                if full is not False:
                    rep.bad("capacity", path, "a value is accepted although every slot is taken")
                    continue
                rep.ok("capacity", path)
                nodrop(rep, path, sq)
                content(rep, path, sq, add(sq.len0, I(1)), lambda s1, i: split(s1, eq(i, sq.len0, True), ("val", data), ("old", i)))
                rep.check(not owndrops, "drops", path, "the value given is dropped although it is kept")
            elif var == "Err":
                if full is not True:
                    (rep.bad)("capacity", path, "a value is refused although a slot is free")
                    continue
                rep.ok("capacity", path)
                nodrop(rep, path, sq)
                content(rep, path, sq, sq.len0, keepall)
            else:
                rep.und("capacity", path, "result not recognised: %s" % short(v, 50))
            continue
        want = lambda s1, i: split(s1, eq(i, I(0), True), ("val", data), ("old", sub(i, I(1))))
        rep.check(not owndrops, "drops", path, "the value given is dropped although it is kept")
        if full is True:
            if len(sq.drops) == 1 and sq.drops[0][1] == 0 and same(s, sq.drops[0][0], sub(sq.len0, I(1))):
                rep.ok("drops", path)
            elif sq.unclear:
                rep.und("drops", path, sq.unclear)
            else:
                rep.bad("drops", path, "the last value gives way without being dropped" if not sq.drops else "something else than the last value is dropped: slot %s" % short(sq.drops[0][0], 30))
            content(rep, path, sq, CAP, want)
        elif full is False:
            nodrop(rep, path, sq)
            content(rep, path, sq, add(sq.len0, I(1)), want)
        else:
            # one path for both cases
            rep.check(False, "drops", path, "whether a value has to give way is not distinguished", undecided=bool(sq.unclear))
    no_panic(rep, r, path)


@rule("C25")
def push(an, rep):
    push_like(an, rep, AV + "push", False)


@rule("C25")
def push_start(an, rep):
    push_like(an, rep, AV + "push_start", True)


@rule("C25")
def pop(an, rep):
    path = AV + "pop"
    r = run(an, rep, path)
    if r is None:
        return
    for s, v in r.rets():
        sq = Seq(r.cx, s, T("at", r.args[0]))
        empty = s.decide(le(sq.len0, I(0)))
        var = s.variant(v)
        nodrop(rep, path, sq)
        keepall = lambda s1, i: [(s1, ("old", i))]
        if var == "None":
            rep.check(empty is True, "popped", path, "nothing is handed out although there is a value")
            content(rep, path, sq, sq.len0, keepall)
        elif var == "Some":
            if empty is not False:
                rep.bad("popped", path, "a value is handed out although there may be none")
                continue
            x = vfld(v, "Some", "0")
            j = old(sq, ("val", x))
            if j is None:
                rep.und("popped", path, "value not recognised: %s" % short(x, 50))
            else:
                rep.check(same(s, j, sub(sq.len0, I(1))), "popped", path, "the value of slot %s is handed out" % short(j, 30))
            content(rep, path, sq, sub(sq.len0, I(1)), keepall)
        else:
            rep.und("popped", path, "result not recognised: %s" % short(v, 50))
    no_panic(rep, r, path)


@rule("C25")
def get(an, rep):
    for name in ("get", "get_mut"):
        path = AV + name
        r = run(an, rep, path)
        if r is None:
            continue
        for s, v in r.rets():
            sq = Seq(r.cx, s, T("at", r.args[0]))
            idx = r.args[1]
            inn = s.decide(lt(idx, sq.len0))
            var = s.variant(v)
            if var == "None":
                rep.check(inn is False, "exposed", path, "an index of a value can be reported as out of range")
            elif var == "Some":
                j = sq.slot(vfld(v, "Some", "0"))
                if inn is not True:
                    rep.bad("exposed", path, "a slot that holds no value is exposed")
                elif j is None:
                    rep.und("exposed", path, "result not recognised: %s" % short(v, 60))
                else:
                    rep.check(same(s, j, idx), "exposed", path, "index %s leads to slot %s" % (short(idx, 20), short(j, 30)))
            else:
                rep.und("exposed", path, "result not recognised: %s" % short(v, 60))
            nodrop(rep, path, sq)
            content(rep, path, sq, sq.len0, lambda s1, i: [(s1, ("old", i))])
        no_panic(rep, r, path)


@rule("C25")
def slices(an, rep):
    for name in ("as_slice", "as_slice_mut", "len"):
        path = AV + name
        r = run(an, rep, path)
        if r is None:
            continue
        for s, v in r.rets():
            sq = Seq(r.cx, s, T("at", r.args[0]))
            if name == "len":
                d = same(s, v, sq.len0)
                (rep.ok("exposed", path) if d else (rep.bad if sq.free(v) else rep.und)("exposed", path, "the length is reported as %s" % short(v, 40)))
                continue
            ab = window(sq, v)
            if ab is None:
                rep.und("exposed", path, "slice not recognised: %s" % short(v, 60))
                continue
            a, b = ab
            if same(s, a, I(0)) and same(s, b, sq.len0):
                rep.ok("exposed", path)
            else:
                free = sq.free(a) and sq.free(b)
                (rep.bad if free else rep.und)("exposed", path, "the slice covers slots %s..%s instead of 0..len" % (short(a, 30), short(b, 30)))
            content(rep, path, sq, sq.len0, lambda s1, i: [(s1, ("old", i))])
        no_panic(rep, r, path)


def window(sq, v):
    """(first slot, end) of a slice reference"""
    if v.op == "ref" and len(v.args) == 1:
        x = sq.s.store.get(v.args[0])
        if x is not None and x.op == "rawslice":
            a = sq.slot(x.args[0])
            return (a, add(a, x.args[1])) if a is not None else None
    root, p = refpath(v)
    if root.op != "obj" or T("at", root.args[0]) is not sq.me or not p or p[0] is not F_ARRAY:
        return None
    if len(p) == 1:
        return I(0), CAP
    if len(p) == 2 and p[1].op == "pslice":
        return p[1].args[0], p[1].args[1]
    return None


@rule("C25")
def dropped(an, rep):
    path = DROP
    r = run(an, rep, path)
    if r is None:
        return
    cx = r.cx
    for s, v in r.rets():
        me = T("at", r.args[0])
        n = fld(me, "len")
        sq = Seq.__new__(Seq)
        sq.cx, sq.s, sq.me, sq.len0 = cx, s, me, n
        if tainted(cx, s.events):
            rep.und("all-dropped", path, "an unknown function runs on this path")
            continue

        def what(st, e):
            """slots a drop event drops: (first, end), or None if it is none of the vector's"""
            if e[0] == "drop":
                j = dropped_slot(sq, e)
                return None if j is None else (j, add(j, I(1)))
            if e[0] != "dropinplace":
                return None
            w = window(sq, e[1])
            if w is not None:
                return w
            j = sq.slot(e[1])
            return (j, add(j, I(1))) if j is not None else "?"
        ones, lps, und = [], [], None
        for e in s.events:
            if e[0] == "loop":
                L = cx.loops[e[1]]
                per = []
                for st, _ in L.iters:
                    es = L.events(st)
                    if any(x[0] in ("loop", "unknown", "havoc") for x in es):
                        und = "loop not recognised"
                    per.append((st, [what(st, x) for x in es if what(st, x) is not None]))
                if any(x for _, x in per):
                    lps.append(per)
            elif what(s, e) is not None:
                ones.append(what(s, e))
        if und or "?" in ones or any("?" in x for per in lps for _, x in per):
            rep.und("all-dropped", path, und or "what is dropped is not recognised")
            continue
        if not ones and not lps:
            if s.decide(le(n, I(0))) is True or any(f.startswith("!needs_drop") for f in s.facts_str()):
                rep.ok("all-dropped", path)
            else:
                rep.bad("all-dropped", path, "the values are not dropped")
            continue
        if len(ones) + len(lps) != 1:
            rep.und("all-dropped", path, "drops not recognised")
            continue
        if ones:
            a, b = ones[0]
            if same(s, a, I(0)) and same(s, b, n):
                rep.ok("all-dropped", path)
            else:
                (rep.bad if sq.free(a) and sq.free(b) else rep.und)("all-dropped", path, "slots %s..%s are dropped instead of 0..len" % (short(a, 30), short(b, 30)))
            continue
        if any(len(x) != 1 for _, x in lps[0]):
            rep.bad("all-dropped", path, "a value is passed over or dropped twice in one round")
            continue
        for st, ((j, _),) in lps[0]:
            kk = [x for x in parts(j)[1] if x.op == "K"]
            if len(kk) != 1:
                rep.und("all-dropped", path, "order of the drops not recognised: slot %s" % short(j, 40))
                continue
            K = kk[0]
            if j is K:
                good = st.decide(lt(K, n)) is True
            elif j is sub(sub(n, I(1)), K):
                good = st.decide(lt(K, n)) is True
            else:
                (rep.bad if sq.free(sub(j, K)) or sq.free(add(j, K)) else rep.und)("all-dropped", path, "round %s drops slot %s" % (short(K, 20), short(j, 40)))
                continue
            if not good:
                rep.bad("all-dropped", path, "a slot that holds no value is dropped")
            elif s.decide(le(n, K)) is not True:
                rep.bad("all-dropped", path, "the values are not all dropped")
            else:
                rep.ok("all-dropped", path)
    no_panic(rep, r, path)
