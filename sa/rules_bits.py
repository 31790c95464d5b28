"""Bit sets and their intersection (C19)."""
from .analysis import *
from . import nums
from .ops import *
from .nums import atoms, differ
from .rules_query import locate, identity_fn  # noqa: F401

RULES = {}
BI = "arche_tape::bitset_iterator::"
IT = BI + "bitset_iterator::BitsetIterator"
NEXT = "<" + IT + " as std::iter::Iterator>::next"
WORD = 64
ONES = 2 ** WORD - 1


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def yes(s, c):
    return s.decide(c) is True


def same(s, a, b):
    return a is b or s.decide(eq(a, b, True)) is True


# ---------------------------------------------------------------- words, bit by bit
def amount(t):
    """A shift or index amount with x & 63 read as x % 64."""
    if t.op == "band" and len(t.args) == 2:
        for i in (0, 1):
            if t.args[i] is I(WORD - 1):
                return T("rem", t.args[1 - i], I(WORD))
    return t


def dv(index):
    return I(index.args[0] // WORD) if index.op == "int" else T("div", index, I(WORD))


def is_rem(t, index):
    t = amount(t)
    if index.op == "int":
        return t is I(index.args[0] % WORD)
    return t.op == "rem" and t.args[0] is index and t.args[1] is I(WORD)


def is_div(t, index):
    if index.op == "int":
        return t is dv(index)
    return (t.op == "div" and t.args[0] is index and t.args[1] is I(WORD)) or (t.op == "shr" and t.args[0] is index and t.args[1] is I(6))


def bit_of(t, env):
    """The bit of a word at the generic position j: env has index, at (j is the bit of the index), old (term -> bit), val (term -> bit)."""
    if t in env["old"]:
        return env["old"][t]
    if t.op == "int":
        if env["index"].op == "int" and env["at"]:
            return t.args[0] >> (env["index"].args[0] % WORD) & 1
        if env["index"].op == "int" and t.args[0] == 1 << env["index"].args[0] % WORD:
            return 0
        return {0: 0, ONES: 1, -1: 1}.get(t.args[0])
    if t.op == "bnot":
        x = bit_of(t.args[0], env)
        return None if x is None else 1 - x
    if t.op in ("band", "bor", "bxor"):
        xs = [bit_of(a, env) for a in t.args]
        if t.op == "band" and 0 in xs:
            return 0
        if t.op == "bor" and 1 in xs:
            return 1
        if None in xs:
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r & x if t.op == "band" else r | x if t.op == "bor" else r ^ x
        return r
    if t.op == "shl" and is_rem(t.args[1], env["index"]):
        x = small(t.args[0], env)
        if x is None:
            return None
        return x if env["at"] else 0
    if t.op == "sel":
        c = truth(t.args[0], env)
        return None if c is None else bit_of(t.args[1] if c else t.args[2], env)
    return None


def small(t, env):
    """Value of a number that is 0 or 1."""
    if t.op == "int" and t.args[0] in (0, 1):
        return t.args[0]
    if t.op == "b2i":
        return truth(t.args[0], env)
    if t.op == "rem" and t.args[1] is I(2):
        return small(T("band", I(1), t.args[0]), env)
    if t.op == "band":
        xs = [small(a, env) for a in t.args]
        if 0 in xs:
            return 0
        if I(1) in t.args:
            others = [a for a in t.args if a is not I(1)]
            if len(others) == 1 and others[0].op == "shr" and is_rem(others[0].args[1], env["index"]):
                return bit_of(others[0].args[0], dict(env, at=True))
            if len(others) == 1:
                return small(others[0], env)
        if None not in xs:
            return int(all(xs))
    return None


def truth(t, env):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    if t in env["val"]:
        return env["val"][t]
    if t.op == "not":
        x = truth(t.args[0], env)
        return None if x is None else 1 - x
    for op in ("eq0", "ne0", "le0"):
        if t.op == op:
            c, d = parts(t.args[0])
            if len(d) != 1:
                return None
            (a, k), = d.items()
            x = small(a, env)
            if x is not None:
                y = c + k * x
                return int(y == 0 if op == "eq0" else y != 0 if op == "ne0" else y <= 0)
            # word & (1 << bit), compared with zero
            if a.op == "band" and any(z.op == "shl" for z in a.args):
                y = bit_of(a, dict(env, at=True))
                if y is None or bit_of(a, dict(env, at=False)) != 0:
                    return None
                if y == 0:
                    return int(c == 0 if op == "eq0" else c != 0 if op == "ne0" else c <= 0)
                if op in ("eq0", "ne0") and c == 0:
                    return int(op == "ne0")
                if op == "le0" and (k, c) in ((-1, 1), (1, 0)):
                    return int(k == -1)
    if t.op == "eq":
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if y in (TRUE, FALSE):
                z = truth(x, env)
                return None if z is None else int(z == (y is TRUE))
    return None


# ---------------------------------------------------------------- setting and reading bits
EMPTYVEC = T("vnew")


def zero_grown(cx, s, v, prev, inv=None):
    """Is the vector v the vector prev with only zero words added at its end?  (True/False/None, why)"""
    if v is prev:
        return True, ""
    if v.op == "vresize":
        if v.args[2] is not I(0):
            return (False if nonzero(s, v.args[2]) else None), "new words are filled with %s" % short(v.args[2], 20)
        if not yes(s, le(vlen(v.args[0]), v.args[1])):
            st = s
            if inv is not None:
                # a set has exactly the words its length needs
                n = scale(vlen(inv[0]), WORD)
                for c in (le(inv[1], n), lt(n, add(inv[1], I(WORD)))):
                    st = st and st.assume(c, True)
            if st is not None and not yes(st, le(vlen(v.args[0]), v.args[1])):
                return False, "words can be cut off"
        return zero_grown(cx, s, v.args[0], prev, inv)
    if v.op == "vpush":
        if v.args[1] is not I(0):
            return (False if nonzero(s, v.args[1]) else None), "a new word is %s" % short(v.args[1], 20)
        return zero_grown(cx, s, v.args[0], prev, inv)
    if v.op == "lv" and v in cx.lvs:
        L, pos = cx.lvs[v]
        for st, _ in L.iters:
            d, why = zero_grown(cx, st, cx.read(st, pos[0], pos[1]), v)
            if d is not True:
                return d, why
        return zero_grown(cx, L.init, cx.read(L.init, pos[0], pos[1]), prev)
    return None, "not recognised: %s" % short(v, 50)


def nonzero(s, t):
    """Can the value, a number or computed from the arguments, be something else than zero?"""
    return t.op == "int" or differ(s, t, I(0), free={a for a in atoms(t) if a.op == "sym"}) is not None


def empty_set(v):
    """Is a value a bit set of length zero?"""
    return v.op == "bitvec_new" or (v.op == "agg" and fld(v, "len") is I(0) and fld(v, "data") in (EMPTYVEC, T("vnew")))


class SetPath:
    """What one path of a bit-setting function does to one bit set (below a path prefix of the object)."""

    def __init__(self, cx, s, me, prefix_, data0, len0):
        self.cx, self.s, self.me, self.pre = cx, s, me, tuple(prefix_)
        self.data0, self.len0 = data0, len0
        self.other = []        # writes outside of the bit set

    def refuted(self, w, old, index, value):
        """A position and contents for which the word written is not the old one with the bit set."""
        try:
            for env in numbers(self.s, self.data0, self.len0, index, (old, value)):
                i, o, v = (nums.value(x, env) for x in (index, old, value))
                if nums.value(w, env) != (o & ~(1 << i % 64) & nums.M64) | int(v) << i % 64:
                    return True
        except nums.Opaque:
            pass
        return False

    def check(self, rep, where, index, value):
        cx, s = self.cx, self.s
        D, Ln = self.pre + (pf("data"),), self.pre + (pf("len"),)
        prev = self.data0
        for e in s.events:
            if e[0] != "w" or e[1] is not self.me:
                continue
            p = tuple(e[2])
            if p == D:
                d, why = zero_grown(cx, s, e[3], prev, (self.data0, self.len0))
                if d is not True:
                    (rep.bad if d is False else rep.und)("other-bits", wh(where, e), "the words of the set: " + why)
                    return
                prev = e[3]
            elif p[:len(D)] == D:
                k = p[len(D)]
                if k.op != "pi" or len(p) != len(D) + 1:
                    rep.und("other-bits", wh(where, e), "write not recognised")
                    return
                k = k.args[0]
                if not is_div(k, index):
                    known = k.op == "int" or any(x is index for x in subterms(k))
                    if s.decide(eq(k, dv(index), True)) is not True:
                        (rep.bad if known else rep.und)("other-bits", wh(where, e), "word %s is written, the bit is in word %s" % (short(k, 40), short(dv(index), 40)))
                        return
                prev = T("vset", prev, k, e[3])
            elif p == Ln or p[:len(self.pre)] != self.pre:
                continue
        # the word that holds the bit
        d = dv(index)
        data = cx.read(s, self.me, D)
        if any(e[0] == "loop" for e in s.events):
            lps = [cx.loops[e[1]] for e in s.events if e[0] == "loop" and not getattr(cx.loops.get(e[1]), "fill", False)]
            if any(e[0] == "w" and tuple(e[2]) != D for L in lps for st, _ in L.iters for e in L.events(st)):
                rep.und("bit", where, "a loop writes the set")
                return
        w = vget(data, d, s)
        old = vget(self.data0, d, s)
        inside = s.decide(lt(d, vlen(self.data0)))
        res = None
        for at in (True, False):
            for o in (0, 1):
                if o == 1 and (inside is False or old is I(0)):
                    continue
                for v in (0, 1):
                    known = s.decide(value)
                    if known is not None and known != bool(v):
                        continue
                    env = {"index": index, "at": at, "old": {old: o} if old.op != "int" else {}, "val": {value: v}}
                    g = bit_of(w, env)
                    want = v if at else o
                    if g is None:
                        off = [x.args[1] for x in subterms(w) if x.op == "shl" and x.args[1].op == "rem" and x.args[1].args[0] is index and x.args[1].args[1].op == "int" and x.args[1].args[1] is not I(WORD)]
                        bad = not off and self.refuted(w, old, index, value)
                        res = res or (("bad", "the word written is %s" % short(w, 80)) if bad else ("bad", "the bit is put at %s" % short(off[0], 40)) if off else ("und", "the word written is not recognised: %s" % short(w, 80)))
                    elif g != want:
                        res = ("bad", "the bit does not get the value given" if at else "another bit of the word changes")
                        break
        if res:
            (rep.bad if res[0] == "bad" else rep.und)("bit", where, res[1])
            return
        rep.ok("bit", where)
        rep.ok("other-bits", where)
        # length
        n = cx.read(s, self.me, Ln)
        want = add(index, I(1))
        if same(s, n, want) and (yes(s, le(self.len0, index)) or yes(s, le(self.len0, want))):
            rep.ok("length", where)
        elif n is self.len0 and yes(s, lt(index, self.len0)):
            rep.ok("length", where)
        elif n.op == "max" and set(n.args) == {want, self.len0}:
            rep.ok("length", where)
        else:
            c, m = parts(n)
            known = n is self.len0 or n.op == "int" or differ(s, n, T("max", self.len0, want)) is not None or all(a is index or a is self.len0 or contains(index, a) for a in m)
            (rep.bad if known else rep.und)("length", where, "the length becomes %s" % short(n, 60))


def read_refuted(s, data0, len0, index, old, x):
    try:
        return any(bool(nums.value(x, env)) != bool(nums.value(old, env) >> nums.value(index, env) % 64 & 1)
                   for env in numbers(s, data0, len0, index, (old,)))
    except nums.Opaque:
        return False


def numbers(s, data0, len0, index, extra):
    """Positions, lengths and contents of a set that follow a path: values for what its facts speak about."""
    ia = nums.atoms(index)
    n = vlen(data0)
    facts = [T("le0", p) for p in s.ints] + [f if v else T("not", f) for f, v in s.bools.items()]
    known = set(extra) | ia | {len0, n}
    if len(ia) > 1 or s.nes or not all(nums.atoms(f) <= known for f in facts):
        return
    for i in (0, 1, 2, 5, 31, 62, 63, 64, 65, 100, 127, 128, 200):
        for ln in (0, 1, 63, 64, 65, 101, 128, 129, 201, 300):
            for o in (0, 1, 2, 1 << 63, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555, nums.M64):
                for v in (0, 1):
                    env = {a: i for a in ia}
                    env.update({len0: ln, n: (ln + 63) // 64})
                    for x, y in zip(extra, (o, v)):
                        if x.op not in ("int", "true", "false"):
                            env[x] = y
                    try:
                        if all(nums.value(f, env) for f in facts):
                            yield env
                    except nums.Opaque:
                        return


def unreachable(s, bits, data, ln, index):
    """Is a path impossible when the words of a set always cover its length?"""
    st = s.assume(le(ln, scale(vlen(data), WORD)), True)
    if st is None:
        return True
    q = dv(index)
    st = st.assume(le(scale(q, WORD), index), True)
    return st is None


def full(an, prefix_=BI):
    return tuple(p for p in an.prog.bypath if p.startswith(BI + "Bit"))


def root(an, path):
    return an.root(path, inline=full(an), tag="bits")


def panics(rep, where, r, ok):
    """Panicking paths must be impossible or refusals the rule allows."""
    for s, v in r.panics():
        if tainted(r.cx, s.events):
            continue
        rep.check(ok(s, v), "no-panic", where, "can panic for a position inside the set or while extending it (%s)" % short(v, 60) if not isinstance(v, tuple) else "can panic: %s" % (v[0],))


@rule("C19")
def one_set(an, rep):
    for name in ("set_bit", "push_bit"):
        path = BI + "Bitvec::" + name
        r = root(an, path) if an.has(path) else None
        if r is None:
            rep.und("bit", path, "not analysed")
            continue
        cx = r.cx
        me = T("obj", r.args[0])
        b0 = T("at", r.args[0])
        data0, len0 = fld(b0, "data"), fld(b0, "len")
        index = r.args[1] if name == "set_bit" else len0
        value = r.args[-1]
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("bit", path, "an unknown function runs on this path")
                continue
            if unreachable(s, None, data0, len0, index):
                continue
            SetPath(cx, s, me, (), data0, len0).check(rep, path, index, value)
        for s, v in r.panics():
            if not tainted(cx, s.events):
                rep.check(unreachable(s, None, data0, len0, index), "no-panic", path, "setting a bit can panic (%s)" % why_panic(v))


def why_panic(v):
    if isinstance(v, Term):
        return short(v, 60)
    return str(v[0]) if isinstance(v, tuple) and v else str(v)


@rule("C19")
def read_bit(an, rep):
    path = BI + "Bitvec::get_bit"
    if not an.has(path):
        return
    r = root(an, path)
    if r is None:
        rep.und("read", path, "not analysed")
        return
    cx = r.cx
    b0 = T("at", r.args[0])
    data0, len0, index = fld(b0, "data"), fld(b0, "len"), r.args[1]
    d = dv(index)
    for s, v in r.rets():
        if tainted(cx, s.events):
            rep.und("read", path, "an unknown function runs on this path")
            continue
        if any(e[0] == "w" and e[1] is T("obj", r.args[0]) for e in s.events):
            rep.bad("read", path, "reading a bit changes the set")
            continue
        var = s.variant(v)
        if var == "None":
            if unreachable(s, None, data0, len0, index):
                continue
            rep.check(yes(s, le(len0, index)), "read", path, "none is reported for a position inside the set")
        elif var == "Some":
            if not yes(s, lt(index, len0)):
                rep.bad("read", path, "a value is reported for a position beyond the length")
                continue
            x = vfld(v, "Some", "0")
            old = vget(data0, d, s)
            bad = und = False
            for o in (0, 1):
                k = s.decide(x)
                g = int(k) if k is not None and x not in (TRUE, FALSE) else truth(x, {"index": index, "at": True, "old": {old: o}, "val": {}})
                if x in (TRUE, FALSE):
                    # decided by the path: the path condition has to tie it to the bit
                    und = True
                elif g is None:
                    und = True
                elif g != o:
                    bad = True
            if und and x in (TRUE, FALSE):
                tied = [f for f, b in s.bools.items() if truth(f, {"index": index, "at": True, "old": {old: int(x is TRUE)}, "val": {}}) == int(b)
                        and truth(f, {"index": index, "at": True, "old": {old: int(x is FALSE)}, "val": {}}) == int(not b)]
                und = not tied
            if bad:
                rep.bad("read", path, "not the bit of the position: %s" % short(x, 80))
            elif und and read_refuted(s, data0, len0, index, old, x):
                rep.bad("read", path, "not the bit of the position: %s" % short(x, 80))
            elif und:
                rep.und("read", path, "result not recognised: %s" % short(x, 80))
            else:
                rep.ok("read", path)
        else:
            rep.und("read", path, "result not recognised: %s" % short(v, 60))
    for s, v in r.panics():
        if not tainted(cx, s.events):
            rep.check(unreachable(s, None, data0, len0, index), "no-panic", path, "reading a bit can panic (%s)" % why_panic(v))


@rule("C19")
def many_sets(an, rep):
    """The list of sets: an operation on one id changes that id's set only, and new ids start with empty sets."""
    for name in ("set_bit", "push_bit", "insert_bitvec"):
        path = BI + "Bitsetsss::" + name
        r = root(an, path) if an.has(path) else None
        if r is None:
            if name != "push_bit":
                rep.und("set-of-id", path, "not analysed")
            continue
        cx = r.cx
        me = T("obj", r.args[0])
        sets0 = fld(T("at", r.args[0]), "bitsets")
        for s, v in r.rets():
            if tainted(cx, s.events) or any(e[0] == "loop" and not getattr(cx.loops.get(e[1]), "fill", False) for e in s.events):
                rep.und("set-of-id", path, "a loop or an unknown function runs on this path")
                continue
            one_of_many(rep, cx, s, path, me, sets0, r, name)


def uindex(e):
    for t in (fld(fld(e, "1"), "0"), fld(fld(e, "0"), "0")):
        yield t


def one_of_many(rep, cx, s, path, me, sets0, r, name):
    B = pf("bitsets")
    prev = sets0
    key = None
    idt = r.args[1]
    for e in s.events:
        if e[0] != "w" or e[1] is not me:
            continue
        p = tuple(e[2])
        if p == (B,):
            v = e[3]
            if v.op == "vset" and v.args[0] is prev:
                prev = v
                continue
            if v.op != "vresize":
                if v.op == "vpush" and v.args[0] is prev and empty_set(v.args[1]):
                    prev = v
                    continue
                rep.und("set-of-id", wh(path, e), "list of sets not recognised: %s" % short(v, 60))
                return
            if v.args[0] is not prev or not empty_set(v.args[2]):
                rep.und("set-of-id", wh(path, e), "new sets not recognised: %s" % short(v, 60))
                return
            if not yes(s, le(vlen(prev), v.args[1])):
                rep.bad("set-of-id", wh(path, e), "sets of other ids can be cut off")
                return
            prev = v
        elif p and p[0] is B and p[1].op == "pi":
            k = p[1].args[0]
            if key is not None and key is not k:
                rep.bad("set-of-id", wh(path, e), "two sets are changed")
                return
            key = k
    here = [t for t in subterms(key)] if key is not None else []
    if name == "insert_bitvec":
        n = vlen(cx.read(s, me, (B,)))
        slot = next((t for t in uindex(idt) if any(t is x for x in subterms(n)) or any(contains(q, t) for q in s.ints)), None)
        if slot is None:
            rep.und("set-of-id", path, "number of sets not recognised: %s" % short(n, 60))
        elif key is not None:
            rep.und("set-of-id", path, "a set is written while sets are added")
        else:
            rep.check(yes(s, lt(slot, n)), "set-of-id", path, "the id has no set afterwards")
        return
    if key is None:
        rep.bad("set-of-id", path, "no set is changed")
        return
    if not any(key is t for t in uindex(idt)):
        known = any(t is x for x in here for t in uindex(idt)) or key.op == "int"
        (rep.bad if known else rep.und)("set-of-id", path, "the set changed is %s" % short(key, 50))
        return
    rep.ok("set-of-id", path)
    new = s.decide(lt(key, vlen(sets0))) is False
    b0 = vget(sets0, key, s)
    data0, len0 = (EMPTYVEC, I(0)) if new else (fld(b0, "data"), fld(b0, "len"))
    index = r.args[2] if name == "set_bit" else len0
    if not new and unreachable(s, None, data0, len0, index):
        return
    SetPath(cx, s, me, (B, pi(key)), data0, len0).check(rep, path, index, r.args[-1])


@rule("C19")
def set_lookup(an, rep):
    path = BI + "Bitsetsss::get_bitvec"
    r = root(an, path) if an.has(path) else None
    if r is None:
        rep.und("set-of-id", path, "not analysed")
        return
    sets0 = fld(T("at", r.args[0]), "bitsets")
    for s, v in r.rets():
        var = s.variant(v)
        if var == "Some":
            root_, p = refpath(vfld(v, "Some", "0"))
            k = p[1].args[0] if len(p) == 2 and p[0] is pf("bitsets") and p[1].op == "pi" else None
            if k is None:
                rep.und("set-of-id", path, "result not recognised")
            else:
                hit = any(k is t for t in uindex(r.args[1]))
                known = k.op == "int" or any(contains(k, t) for t in uindex(r.args[1]))
                if hit:
                    rep.ok("set-of-id", path)
                else:
                    (rep.bad if known else rep.und)("set-of-id", path, "the set of %s is returned" % short(k, 40))
        elif var == "None":
            rep.check(any(yes(s, le(vlen(sets0), t)) for t in uindex(r.args[1])), "set-of-id", path, "the set of an id is not found",
                      undecided=not any(contains(q, t) for q in s.ints for t in uindex(r.args[1]))
                      or any(yes(s, eq(fld(vget(sets0, t, s), "len"), I(0), True)) for t in uindex(r.args[1])))
        else:
            rep.und("set-of-id", path, "result not recognised")


# ---------------------------------------------------------------- intersecting sets
class Roles:
    """Which field plays which part in the iterator: position, pending bits, bits left of the word, limit, sets."""


def strip_shr(s, t):
    """(word, number of places it was shifted right by)"""
    k = I(0)
    while t.op == "shr":
        k = add(k, t.args[1])
        t = t.args[0]
    return t, k


def tz_in(t):
    return [a for a in parts(t)[1] if a.op == "trailing_zeros"]


def find_roles(an, rep):
    rn = an.root(IT + "::new", inline=full(an), tag="bits")
    r = an.root(NEXT, inline=full(an), tag="bits")
    if rn is None or r is None:
        rep.und("roles", NEXT, "not analysed: %s" % (an.errors.get(NEXT) or an.errors.get(IT + "::new")))
        return None
    cx = r.cx
    R = Roles()
    R.r, R.cx, R.me = r, cx, T("obj", r.args[0])
    for s, v in rn.rets():
        if v.op != "agg":
            rep.und("roles", IT + "::new", "result not recognised")
            return None
        adt = an.prog.adts.get(IT) or {}
        names = [f[0] for vv in adt.get("variants", ()) for f in vv["fields"]]
        R.init = {n: fld(v, n) for n in names}
    R.iters = next((n for n, x in R.init.items() if x is rn.args[0]), None)
    R.limit = next((n for n, x in R.init.items() if x is rn.args[1] or (x.op in ("trunc", "zext") and x.args[0] is rn.args[1])), None)
    ints = [n for n, x in R.init.items() if x.op == "int"]
    R.index = R.bits = None
    cands = []
    for s, v in r.rets():
        if s.variant(v) != "Some":
            continue
        x = vfld(v, "Some", "0")
        for a in parts(x)[1]:
            if a.op == "trailing_zeros":
                l = locate(cx, a.args[0])
                if l is not None and l[0] is R.me and len(l[1]) == 1:
                    R.bits = l[1][0].args[0]
                continue
            l = locate(cx, a)
            if l is not None and l[0] is R.me and len(l[1]) == 1 and l[1][0].args[0] in ints:
                cands.append(l[1][0].args[0])
    for n in cands:
        if n != R.bits:
            # the position is what the reported number is counted from
            R.index = n if R.index in (None, n) else "?"
    if R.index == "?" and R.bits is not None:
        # several numbers take part: the one that starts at zero and is never compared with zero is the position
        tested = set()
        for s, v in r.rets():
            for q in s.ints:
                c, d = parts(q)
                if c in (0, 1) and len(d) == 1:
                    l = locate(cx, next(iter(d)))
                    if l is not None and l[0] is R.me and len(l[1]) == 1:
                        tested.add(l[1][0].args[0])
        left = [n for n in set(cands) if n != R.bits and n not in tested]
        R.index = left[0] if len(left) == 1 else None
    rest = [n for n in ints if n not in (R.index, R.bits, R.limit)]
    if None in (R.iters, R.limit, R.index, R.bits) or len(rest) != 1:
        rep.und("roles", NEXT, "the parts of the iterator are not recognised (%s)" % ", ".join(
            "%s: %s" % (a, getattr(R, a)) for a in ("iters", "limit", "index", "bits")))
        return None
    R.left = rest[0]
    return R


def head_values(R, s, events, L=None):
    """Values of position, pending bits and bits left at the start of the stretch of a path that ends in s."""
    out = []
    for f in (R.index, R.bits, R.left):
        v = fld(T("at", R.r.args[0]), f)
        if L is not None:
            v = L.vals.get((R.me, (pf(f),)), v)
        else:
            for e in events:
                if e[0] == "loop":
                    M = R.cx.loops[e[1]]
                    v = M.vals.get((R.me, (pf(f),)), v)
        out.append(v)
    return out


def drawn(R, events):
    """The words drawn on a path: [(set number, term of the draw, event)]; None if something else is drawn."""
    out = []
    for e in events:
        if e[0] == "tcall" and e[1] == "std::iter::Iterator::next":
            k = set_no(R, e[3][0]) if e[3] else None
            if k is None:
                return None
            out.append((k, e[-1] if isinstance(e[-1], Term) and e[-1].op == "tcall" else next((x for x in e if isinstance(x, Term) and x.op == "tcall"), None), e))
    return out


def set_no(R, ref):
    """Number of the set whose word iterator a reference points to."""
    root_, p = refpath(ref)
    if root_ is not R.me or len(p) < 2 or p[0] is not pf(R.iters) or p[1].op != "pi":
        return None
    return p[1].args[0]


def mapped(R, x):
    """(set number of the map, draw) of a mapped word."""
    if x.op != "apply" or len(x.args) != 2:
        return None
    f, a = x.args
    if f.op != "fld" or f.args[1] != "1" or f.args[0].op != "vget":
        return None
    return f.args[0].args[1], word(a)


def word(a):
    """The draw a word comes from."""
    while a.op in ("at", "vfld", "fld", "ref") or (a.op == "vf"):
        b = next((x for x in a.args if isinstance(x, Term)), None)
        if b is None:
            return None
        a = b
    return a if a.op == "tcall" else None


def intersection(R, s, events, b):
    """Is b the intersection of one mapped word of every set?  ('ok'|'bad'|'und', why)"""
    cx = R.cx
    pre = drawn(R, events)
    if pre is None:
        return "und", "something else than the sets is drawn from"
    for k, t, _ in pre:
        if s.variant(t) == "None":
            return "bad", "bits are reported although set %s has no word left" % short(k, 20)
    lps = [cx.loops[e[1]] for e in events if e[0] == "loop"]
    for L in lps:
        if any(drawn(R, L.events(st)) is None for st, _ in L.iters):
            return "und", "something else than the sets is drawn from"
    if b.op == "band" and len(b.args) == 2:
        # the loop is left in the middle of a round: the word of that round is in
        for acc, x in (b.args, b.args[::-1]):
            m = mapped(R, x)
            if acc.op != "lv" or acc not in cx.lvs or m is None:
                continue
            k = m[0]
            own = [d for d in pre if d[1] is m[1]]
            if len(own) != 1 or own[0][0] is not k:
                break
            c, d = parts(k)
            kk = [a for a in d if a.op == "K"]
            if len(kk) != 1 or len(d) != 1 or d[kk[0]] != 1:
                break
            for p in s.ints:            # the number of sets <= k + 1
                c2, mm = parts(p)
                if mm.get(kk[0]) == -1 and len(mm) == 2 and c2 >= -c - 1 and any(a.op == "vlen" and mm[a] == 1 for a in mm):
                    break
            else:
                return "bad", "the intersection can be taken before all sets were used"
            break
    if b.op == "lv" and b in cx.lvs:
        L, pos = cx.lvs[b]
        if L not in lps:
            return "und", "the loop that intersects is not part of this step"
        i0 = cx.read(L.init, pos[0], pos[1])
        if i0 is I(ONES) or i0 is T("bnot", I(0)) or i0 is I(-1):
            if pre:
                return "bad", "a word of set %s is drawn and not used" % short(pre[0][0], 20)
            start = 0
        else:
            m = mapped(R, i0)
            if m is None:
                w = word(i0)
                if w is not None:
                    return "bad", "a word of the first set is used without its map"
                return "und", "first word not recognised: %s" % short(i0, 60)
            if len(pre) != 1 or m[1] is not pre[0][1]:
                return "und", "first word not recognised"
            if m[0] is not pre[0][0]:
                return "bad", "the word of set %s is mapped with the map of set %s" % (short(pre[0][0], 20), short(m[0], 20))
            if m[0] is not I(0):
                return "bad" if m[0].op == "int" else "und", "the intersection starts with set %s" % short(m[0], 20)
            start = 1
        K = None
        for st, _ in L.iters:
            ds = drawn(R, L.events(st))
            fv = cx.read(st, pos[0], pos[1])
            if len(ds) != 1:
                return "bad" if not ds else "und", "a set is passed over" if not ds else "several words are drawn at once"
            k = ds[0][0]
            c, d = parts(k)
            kk = [x for x in d if x.op == "K"]
            if len(d) != 1 or len(kk) != 1 or d[kk[0]] != 1:
                return "und", "order of the sets not recognised: %s" % short(k, 40)
            if c != start:
                return "bad", "the sets walked start with set %d after %d" % (c, start)
            K = kk[0]
            if fv.op in ("bor", "bxor") and b in fv.args:
                return "bad", "words are joined with %s instead of intersected" % fv.op
            if fv.op != "band" or b not in fv.args or len(fv.args) != 2:
                return ("bad" if fv is b or fv.op in ("int", "apply") else "und"), "the word of a set is not intersected: %s" % short(fv, 60)
            x = fv.args[0] if fv.args[1] is b else fv.args[1]
            m = mapped(R, x)
            if m is None:
                return ("bad" if word(x) is not None and x.op != "apply" else "und"), "a word is used without its map: %s" % short(x, 60)
            if m[1] is not ds[0][1]:
                return "und", "word not recognised"
            if m[0] is not k:
                return "bad", "the word of set %s is mapped with the map of set %s" % (short(k, 20), short(m[0], 20))
        if K is None:
            return "bad", "only the first set is looked at"
        # left only when all sets were used
        for p in s.ints:
            c, m = parts(p)
            if m.get(K) == -1 and len(m) == 2 and c >= -start:
                a, = [x for x in m if x is not K]
                if m[a] == 1 and a.op == "vlen":
                    return "ok", ""
        return "bad", "the intersection can be taken before all sets were used"
    m = mapped(R, b)
    if m is not None:
        if any(p_.op == "le0" for p_ in ()):
            pass
        for p in s.ints:
            c, mm = parts(p)
            if len(mm) == 1 and c >= -1:
                (a, k), = mm.items()
                if a.op == "vlen" and k == 1:
                    return "ok", ""
        return "bad", "only the first set is looked at"
    return "und", "pending bits not recognised: %s" % short(b, 60)


def refill_events(R, events):
    """Does a stretch of a path draw words?"""
    if drawn(R, events) != []:
        return True
    for e in events:
        if e[0] == "loop":
            L = R.cx.loops[e[1]]
            if (R.me, (pf(R.bits),)) in L.vals and not any(drawn(R, L.events(st)) for st, _ in L.iters):
                continue
            if (R.me, (pf(R.index),)) in L.vals:
                continue        # an outer loop: its rounds are stretches of their own
            if any(drawn(R, L.events(st)) != [] for st, _ in L.iters):
                return True
    return False


def own_events(R, events):
    """Events after the last outer loop of a path."""
    last = -1
    for i, e in enumerate(events):
        if e[0] == "loop" and (R.me, (pf(R.index),)) in R.cx.loops[e[1]].vals:
            last = i
    return events[last + 1:]


def step(R, rep, s, v, events, L, kind):
    cx = R.cx
    I0, B0, L0 = head_values(R, s, events, L)
    ev = own_events(R, events)
    if tainted(cx, ev):
        rep.und("step", NEXT, "an unknown function runs on this path")
        return
    lim = fld(T("at", R.r.args[0]), R.limit)
    if lim.op in ("trunc", "zext"):
        lim = lim.args[0]
    I2, B2, L2 = (cx.read(s, R.me, (pf(f),)) for f in (R.index, R.bits, R.left))
    tz0 = T("trailing_zeros", B0)

    def empty(b, l=None):
        return (b is I(0) or yes(s, eq(b, I(0), True)) or yes(s, eq(T("trailing_zeros", b), I(WORD), True)) or (l is not None and yes(s, eq(l, I(0), True)))
                or (l is not None and yes(s, le(l, I(0)))))
    fill = refill_events(R, ev)
    I1, B1, L1 = I0, B0, L0
    ended = [t for t, var in s.variants.items() if var == "None" and t.op == "tcall" and t.args[0] == "std::iter::Iterator::next"]
    nosets = any(len(parts(p)[1]) == 1 and list(parts(p)[1].items())[0][0].op == "vlen" and list(parts(p)[1].items())[0][1] == 1 and parts(p)[0] >= 0
                 and R.iters in show(list(parts(p)[1])[0]) for p in s.ints)
    if fill or (kind == "None" and nosets):
        if not empty(B0, L0):
            touched = any(contains(p, B0) or contains(p, L0) for p in s.ints)
            (rep.bad if touched else rep.und)("step", NEXT, "the next words are drawn although bits of the current ones are pending")
            return
    if kind == "None" and (ended or nosets) and (fill or nosets):
        # nothing more to draw; it has to stay like that
        rep.check(empty(B2, L2), "stays-ended", NEXT, "after the end bits are left that a later call reports", undecided=B2.op == "sym")
        return
    if fill:
        b = cand_bits(R, s, v, ev)
        if b is None:
            rep.und("step", NEXT, "pending bits not recognised")
            return
        st, why = intersection(R, s, ev, b)
        if st != "ok":
            (rep.bad if st == "bad" else rep.und)("intersection", NEXT, why)
            return
        rep.ok("intersection", NEXT)
        I1, B1, L1 = add(I0, L0), b, I(WORD)
        if yes(s, eq(L0, I(0), True)):
            I1 = I0
    tz = T("trailing_zeros", B1)
    if kind == "Some":
        x = vfld(v, "Some", "0")
        tzs = tz_in(x)
        if len(tzs) != 1 or parts(x)[1][tzs[0]] != 1:
            rep.und("step", NEXT, "position not recognised: %s" % short(x, 60))
            return
        if tzs[0] is not tz:
            rep.und("step", NEXT, "the bits looked at are not the pending ones: %s" % short(tzs[0], 60))
            return
        base = sub(x, tz)
        if not same(s, base, I1):
            dlt = sub(base, I1)
            (rep.bad if dlt.op == "int" or all(a in (I0, L0, I1, lim) for a in parts(dlt)[1]) else rep.und)("step", NEXT, "the position reported is %s, the bit is at %s" % (short(x, 60), short(add(I1, tz), 60)))
            return
        if not (yes(s, lt(tz, I(WORD))) or s.decide(eq(tz, I(WORD), True)) is False or s.decide(eq(B1, I(0), True)) is False):
            rep.bad("step", NEXT, "a position is reported without a bit that is set")
            return
        if not yes(s, lt(x, lim)):
            rep.bad("step", NEXT, "a position at or beyond the length limit can be reported")
            return
        w, k = strip_shr(s, B2)
        n = add(tz, I(1))
        if w is B1 and same(s, k, n):
            good = same(s, I2, add(I1, n)) and same(s, L2, sub(L1, n))
            rep.check(good, "step", NEXT, "after a bit was reported the position (%s) or the number of bits left (%s) does not match the pending bits" % (short(I2, 50), short(L2, 50)),
                      undecided=not (lin_of(I2, (I0, L0, tz)) and lin_of(L2, (L0, tz))))
        elif w is B1 and (k.op == "int" or lin_of(k, (tz,))):
            rep.bad("step", NEXT, "after a bit was reported the pending bits are moved by %s" % short(k, 40))
        else:
            rep.und("step", NEXT, "pending bits afterwards not recognised: %s" % short(B2, 60))
        return
    if kind == "loop":
        if B2 is B1 and same(s, I2, I1) and same(s, L2, L1):
            rep.ok("step", NEXT)
        elif empty(B1):
            if not same(s, add(I2, L2), add(I1, L1)):
                rep.bad("step", NEXT, "when the bits of a word are used up the position of the next word is not kept (%s, %s)" % (short(I2, 50), short(L2, 50)))
            elif B2 is B1 or empty(B2, L2):
                rep.ok("step", NEXT)
            else:
                rep.und("step", NEXT, "pending bits not recognised: %s" % short(B2, 50))
        elif any(contains(p, tz) for p in s.ints) or any(contains(p, B1) for p in s.bools):
            rep.bad("step", NEXT, "bits of a word are passed over")
        else:
            rep.und("step", NEXT, "step not recognised")
        return
    # None because of the limit
    pos = add(I1, tz)
    if not yes(s, le(lim, pos)) and not yes(s, le(lim, I1)):
        rep.bad("end", NEXT, "the iteration can end although positions below the length limit are left")
        return
    rep.ok("end", NEXT)
    w, k = strip_shr(s, B2)
    cut = exhausted(R, s)
    if B2 is B1 and same(s, I2, I1) and (same(s, L2, L1)):
        rep.ok("stays-ended", NEXT)
    elif yes(s, le(lim, I2)) and (empty(B2, L2) or w is B1):
        rep.ok("stays-ended", NEXT)
    elif cut and empty(B2, L2):
        rep.ok("stays-ended", NEXT)
    elif lin_of(I2, (I0, L0, tz)) and (empty(B2, L2) or w is B1 or w.op == "int"):
        rep.bad("stays-ended", NEXT, "after the end a later call can report a position again")
    else:
        rep.und("stays-ended", NEXT, "state after the end not recognised: %s, %s" % (short(I2, 40), short(B2, 40)))


def lin_of(t, atoms):
    return all(a in atoms for a in parts(t)[1])


def exhausted(R, s):
    """Is one of the sets replaced by an empty one?"""
    for e in s.events:
        if e[0] == "w" and e[1] is R.me and len(e[2]) >= 2 and e[2][0] is pf(R.iters) and e[2][1].op == "pi":
            x = e[3]
            if x.op == "agg" and "$it" in str(x.args[0]):
                a, b = fld(x, "pos"), fld(x, "end")
                if same(s, a, b):
                    return True
    return False


def cand_bits(R, s, v, ev):
    """The pending bits after words were drawn: what is stored as such first, or what the lowest bit is taken from."""
    for e in ev:
        if e[0] == "w" and e[1] is R.me and tuple(e[2]) == (pf(R.bits),):
            w, k = strip_shr(s, e[3])
            if w.op in ("lv", "apply", "band", "bor", "bxor"):
                return w
    for p in s.ints:
        for t in subterms(p):
            if t.op == "trailing_zeros" and t.args[0].op in ("lv", "apply", "band") and locate(R.cx, t.args[0]) != (R.me, (pf(R.bits),)):
                return t.args[0]
    return None


@rule("C19")
def intersect(an, rep):
    R = find_roles(an, rep)
    if R is None:
        return
    cx = R.cx
    i = R.init
    if all(i[f].op == "int" for f in (R.index, R.bits, R.left)):
        start = i[R.index].args[0] + i[R.left].args[0]
        rep.check(start == 0 and (i[R.bits] is I(0) or i[R.left] is I(0)), "start", IT + "::new", "a new iterator does not start before the first word with no pending bits")
    else:
        rep.und("start", IT + "::new", "not recognised")
    for s, v in R.r.rets():
        var = s.variant(v)
        if var is None:
            rep.und("step", NEXT, "result not recognised: %s" % short(v, 40))
            continue
        step(R, rep, s, v, s.events, None, var)
    for L in cx.loops.values():
        if (R.me, (pf(R.index),)) not in L.vals:
            continue
        for st, _ in L.iters:
            step(R, rep, st, None, L.events(st), L, "loop")
