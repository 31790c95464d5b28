"""The untyped container (C15, C16, C22) and the contracts of its operations that the world rules rely on (C05-C07, C16)."""
from .analysis import *
from . import nums

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


UVT = "untyped_vec::UntypedVec"
DROP = "<untyped_vec::UntypedVec as std::ops::Drop>::drop"
F_LEN, F_CAP, F_DATA, F_TI = "len", "cap", "data", "type_info"
n_, c_, m_, d_ = T("sym", "n"), T("sym", "c"), T("sym", "m"), T("sym", "d")
C_, D_ = T("sym", "cap_bytes"), T("sym", "other_cap_bytes")
P = {k: pf(k) for k in (F_LEN, F_CAP, F_DATA, F_TI, "layout", "size", "align", "drop_fn")}


def is_uv(ty):
    return ty["k"] == "adt" and ty["path"] == UVT


def uv_params(f):
    out = []
    for i, t in enumerate(f.d["inputs"]):
        if t["k"] == "ref" and is_uv(t["t"]):
            out.append(i)
    return out


class Vec:
    """Abstract contents of one container along a path."""

    def __init__(self, name, obj, n, c):
        self.name, self.obj = name, obj
        self.n0, self.c0 = n, c
        self.len = self.cap = self.data = None
        self.over = []      # (index, value) newest last
        self.owned = None   # (pointer, size in elements) of the live allocation


class Sim:
    """Replays the events of one abstract path on the element level."""

    def __init__(self, cx, st, vecs, S, AL, zst):
        self.cx, self.st, self.vecs, self.S, self.AL, self.zst = cx, st, vecs, S, AL, zst
        self.issues = []      # (rule, status, where, detail)
        self.drops = []       # (vec, index, value, event, len at that time)
        self.pushes = 0
        self.freed = []
        self.oks = 0

    def ok(self):
        self.oks += 1

    def issue(self, rule, status, e, detail):
        self.issues.append((rule, status, e, detail))

    def elems(self, x):
        """A byte quantity in elements."""
        if self.zst:
            return x
        return exact_div(x, self.S)

    def bytewise(self, p, size):
        """A fixed number of bytes per round of a loop."""
        return size.op == "int" and any(a.op == "K" for a in parts(self.norm(p)[3])[1])

    def norm(self, p):
        """(vec or None, element index or None, base)"""
        base, off = p, I(0)
        while base.op == "padd":
            off = add(off, base.args[1])
            base = base.args[0]
        for v in self.vecs:
            if base is v.data:
                return v, self.elems(off), base, off
        return None, None, base, off

    def holds(self, c):
        return self.st.decide(c)

    def counted_down(self, m):
        """m = start - round counter, at least 1 in every round because every round stops at 0."""
        c, d = parts(m)
        ks = [a for a in d if a.op == "K"]
        if len(ks) != 1 or d[ks[0]] != -1:
            return False
        L = self.cx.loops.get(ks[0].args[0])
        start = add(m, ks[0])
        if L is None or contains(start, ks[0]) or self.holds(le(I(0), start)) is not True:
            return False
        z = eq(m if self.zst else mul(m, self.S), I(0), True)
        return self.holds(z) is False and all(st.decide(z) is False for st, _ in L.iters)

    def value(self, v, k):
        for i, val in reversed(v.over):
            d = self.st.decide(eq(i, k, True))
            if d is True:
                return val
            if d is None:
                return None
        return T("old", v.obj, k)

    def access(self, e, p, cnt, what, init):
        """One access to `cnt` elements at p; init: the elements have to be initialised (otherwise only allocated)."""
        v, k, base, off = self.norm(p)
        if v is None:
            if base.op in ("sym", "fld", "ref", "loc") and not any(contains(base, x.at) for x in self.vecs):
                return None, None      # memory handed in by the caller
            self.issue("bounds", "undecided" if base.op not in ("ptrint", "dangling") else "bad", e, "%s through %s, which is not the container's memory" % (what, short(p)))
            return None, None
        if k is None:
            self.issue("bounds", "bad", e, "%s at byte offset %s, which is not a whole number of elements" % (what, short(off)))
            return v, None
        if v.owned is None or v.owned[0] is not v.data:
            if v.owned is None:
                self.issue("bounds", "bad", e, "%s although nothing is allocated" % what)
                return v, k
            self.issue("bounds", "bad", e, "%s through a pointer whose allocation was released" % what)
            return v, k
        byt = v.len if init else v.cap
        lim = self.elems(byt)
        if lim is None and not self.by:
            self.issue("bounds", "undecided", e, "%s: size %s is not in elements" % (what, short(byt)))
            return v, k
        if lim is None:
            lim = byt
            d = self.holds(le(mul(add(k, cnt), self.S), byt))
        else:
            d = self.holds(le(add(k, cnt), lim))
        if d is not True and init:
            d = self.holds(le(add(k, cnt), v.n0))      # initialised at entry
        d2 = self.holds(le(I(0), k)) if k.op != "int" else k.args[0] >= 0
        if d is True and d2 is True:
            self.ok()
        else:
            self.issue("bounds", "bad", e, "%s of element %s is not guarded by %s %s" % (what, short(k), "length" if init else "capacity", short(lim)))
        return v, k

    def run(self, events):
        for e in events:
            self.step(e)

    def step(self, e):
        k = e[0]
        cx, st = self.cx, self.st
        if k == "w":
            v = next((x for x in self.vecs if x.obj is e[1]), None)
            if v is None:
                return
            path, val = e[2], e[3]
            if path and path[0] is P[F_LEN] and len(path) == 1:
                v.len = val
            elif path and path[0] is P[F_CAP] and len(path) == 1:
                v.cap = val
            elif path and path[0] is P[F_DATA]:
                v.data = val
                new = next((x for x in self.freed if x[0] == "new" and x[1] is val), None)
                if new:
                    if v.owned is not None:
                        self.issue("allocation", "bad", e, "a new allocation replaces one that is not released")
                    v.owned = (val, new[2])
            elif path and path[0] is P[F_TI]:
                self.issue("type-info", "bad", e, "the element type of a container changes")
            elif not path:
                self.issue("type-info", "undecided", e, "the whole container is overwritten")
            return
        if k == "copy":
            src, dst, size = e[2], e[3], e[4]
            if self.zst:
                if st.decide(eq(size, I(0), True)) is not True:
                    self.issue("bounds", "bad", e, "copies bytes for a zero-sized element")
                return
            cnt = self.elems(size)
            if cnt is None and self.bytewise(src, size):
                self.issue("bounds", "undecided", e, "copies byte by byte")
                self.issue("contents", "undecided", e, "copies byte by byte")
                return
            if cnt is None:
                self.issue("bounds", "bad", e, "copies %s bytes, which is not a whole number of elements" % short(size))
                return
            if cnt is I(1):
                sv, si = self.access(e, src, cnt, "read", True)
                val = self.value(sv, si) if sv and si is not None else (T("src", src) if sv is None else None)
                dv, di = self.access(e, dst, cnt, "write", False)
                if dv and di is not None:
                    dv.over.append((di, val))
            else:
                self.access(e, src, cnt, "read", True)
                dv, _ = self.access(e, dst, cnt, "write", False)
                if dv:
                    dv.over.append((None, None))
                self.issue("contents", "undecided", e, "moves a block of elements")
            return
        if k == "swapmem":
            a, b, size = e[1], e[2], e[3]
            if self.zst:
                return
            cnt = self.elems(size)
            if cnt is not I(1):
                if self.bytewise(a, size):
                    self.issue("contents", "undecided", e, "swaps byte by byte")
                self.issue("bounds", "bad" if cnt is None and not self.bytewise(a, size) else "undecided", e, "swaps %s bytes instead of one element" % short(size))
                return
            av, ai = self.access(e, a, cnt, "swap", True)
            bv, bi = self.access(e, b, cnt, "swap", True)
            if av and bv and ai is not None and bi is not None:
                x, y = self.value(av, ai), self.value(bv, bi)
                if st.decide(eq(ai, bi, True)) is not False and av is bv:
                    if "nonoverlapping" in (e[4] if len(e) > 4 and isinstance(e[4], str) else ""):
                        self.issue("bounds", "bad", e, "swaps an element with itself as if disjoint")
                av.over.append((ai, y))
                bv.over.append((bi, x))
            return
        if k == "callptr":
            f, args = e[1], e[2]
            v = next((x for x in self.vecs if f is vfld(fld(x.ti, "drop_fn"), "Some", "0")), None)
            if v is None or not args:
                return
            p = args[0]
            if self.zst:
                b = p
                while b.op == "padd":
                    b = b.args[0]
                if b.op == "ptrint" and b.args[0] is self.AL:
                    self.ok()
                else:
                    self.issue("alignment", "bad", e, "the destructor of a zero-sized value gets %s, which need not be aligned" % short(p))
                self.drops.append((v, None, None, e, v.len))
                return
            # initialised according to the length before the removal: the caller compares with it
            vv, kk, base, off = self.norm(p)
            if vv is None:
                self.issue("bounds", "undecided", e, "drops through %s" % short(p))
                self.drops.append((v, None, None, e, v.len))
                return
            if kk is None:
                self.issue("bounds", "bad", e, "drops at byte offset %s, which is not a whole number of elements" % short(off))
                self.drops.append((v, None, None, e, v.len))
                return
            ln = self.elems(v.n0bytes)
            d = self.holds(le(add(kk, I(1)), ln))
            if d is True and (self.holds(le(I(0), kk)) is True or self.counted_down(add(kk, I(1)))) and v.owned is not None:
                self.ok()
            else:
                self.issue("bounds", "bad", e, "the destructor runs on element %s, which need not be one of the %s elements" % (short(kk), short(ln)))
            self.drops.append((v, kk, self.value(vv, kk), e, v.len))
            return
        if k == "alloc":
            p, lay = e[1], e[2]
            size, al = fld(lay, "size"), fld(lay, "align")
            if self.zst:
                self.issue("allocation", "bad", e, "allocates for a zero-sized type")
                return
            if st.decide(lt(I(0), size)) is not True:
                self.issue("allocation", "bad", e, "allocates %s bytes, which can be zero" % short(size))
            elif st.decide(eq(al, self.AL)) is not True:
                self.issue("allocation", "bad", e, "allocates with alignment %s" % short(al))
            else:
                self.ok()
            self.freed.append(("new", p, size))
            return
        if k == "realloc":
            p, old, lay, new = e[1], e[2], e[3], e[4]
            v = next((x for x in self.vecs if x.data is old), None)
            if v is None:
                self.issue("allocation", "bad", e, "reallocates %s, which is not the container's memory" % short(old))
                return
            okk = True
            if v.owned is None:
                self.issue("allocation", "bad", e, "reallocates although nothing need be allocated")
                okk = False
            elif st.decide(eq(fld(lay, "size"), v.owned[1], True)) is not True:
                self.issue("allocation", "bad", e, "reallocates with old size %s instead of %s" % (short(fld(lay, "size")), short(v.owned[1])))
                okk = False
            elif st.decide(eq(fld(lay, "align"), self.AL)) is not True:
                self.issue("allocation", "bad", e, "reallocates with alignment %s" % short(fld(lay, "align")))
                okk = False
            if st.decide(lt(I(0), new)) is not True:
                self.issue("allocation", "bad", e, "reallocates to %s bytes, which can be zero" % short(new))
                okk = False
            keep = self.elems(new)
            if self.holds(le(v.len, new)) is not True and (keep is None or self.holds(le(self.elems(v.len) or v.len, keep)) is not True):
                self.issue("allocation", "bad", e, "shrinks to %s below the length %s" % (short(new), short(v.len)))
                okk = False
            if okk:
                self.ok()
            self.freed.append(("re", p, new))
            v.owned = (p, new)
            return
        if k == "dealloc":
            p, lay = e[1], e[2]
            v = next((x for x in self.vecs if x.data is p), None)
            if v is None:
                self.issue("allocation", "undecided", e, "releases %s" % short(p))
                return
            if v.owned is None or v.owned[0] is not p:
                self.issue("allocation", "bad", e, "releases memory although nothing need be allocated")
            elif st.decide(eq(fld(lay, "size"), v.owned[1], True)) is not True or st.decide(eq(fld(lay, "align"), self.AL)) is not True:
                self.issue("allocation", "bad", e, "releases with layout %s instead of the one it was allocated with" % short(lay))
            else:
                self.ok()
            v.owned = None
            v.released = True
            return
        if k in ("read", "write", "memread", "memwrite"):
            p = e[1]
            v, kk, base, off = self.norm(p)
            if v is not None:
                self.issue("bounds", "undecided", e, "typed %s through the container's memory" % k)
            return
        if k == "rawslice":
            p, ln, sz = e[1], e[2], e[3]
            self.rawslice(e, p, ln, sz)
            return

    def rawslice(self, e, p, ln, sz):
        v, k, base, off = self.norm(p)
        A = self.vecs[0]
        st = self.st
        want = A.len if self.zst else self.elems(A.len)
        if want is None or st.decide(eq(ln, want, True)) is not True:
            self.issue("slice", "bad" if want is not None and ln is not want else "undecided", e, "the slice has %s elements instead of %s" % (short(ln), short(want) if want is not None else "?"))
        else:
            self.ok()
        lay = fld(fld(A.ti, "layout"), "size")
        same = st.decide(eq(fld(A.ti, "layout"), agg("std::alloc::Layout", 0, "Layout", ("size", "align"), (sz, T("alignof", *sz.args)))))
        if same is not True and st.decide(eq(sz, lay, True)) is not True:
            self.issue("slice", "bad", e, "the element type of the slice is not checked against the stored layout")
        else:
            self.ok()
        self.pointer(e, p, I(0), "slice")

    def pointer(self, e, p, idx, what):
        """p is handed out as the address of element idx (a dangling aligned pointer when there is no memory)."""
        A = self.vecs[0]
        v, k, base, off = self.norm(p)
        if v is not None:
            if v.owned is None:
                self.issue("alignment", "bad", e, "%s hands out a pointer that is not aligned when nothing is allocated" % what)
            elif k is None or self.st.decide(eq(k, idx, True)) is not True:
                self.issue("bounds", "bad", e, "%s hands out %s instead of element %s" % (what, short(p), short(idx)))
            else:
                self.ok()
        elif base.op == "ptrint" and self.st.decide(eq(base.args[0], self.AL, True)) is True:
            if A.owned is not None:
                self.issue("bounds", "bad", e, "%s hands out a dangling pointer although memory is allocated" % what)
            else:
                self.ok()
        elif base.op == "dangling":
            self.issue("alignment", "bad", e, "%s hands out a dangling pointer that need not be aligned" % what)
        else:
            self.issue("bounds", "undecided", e, "%s hands out %s" % (what, short(p)))


def pre_facts(f, zst, alloc, by=False):
    """Entry facts: the representation invariant, in the zero-sized / nothing allocated / allocated case.  The capacity is a
    whole number of elements (by=False), or any number of bytes with room for the elements and for one (by=True)."""
    def facts(cx, st, args):
        idx = uv_params(f)
        S = AL = None
        for j, i in enumerate(idx):
            o = T("obj", args[i])
            ti = fld(cx.read(st, o, ()), F_TI)
            if j == 0:
                S, AL = fld(fld(ti, "layout"), "size"), fld(fld(ti, "layout"), "align")
                st = st.assume(lt(I(0), AL))
            n, c = (n_, c_) if j == 0 else (m_, d_)
            if zst:
                cx.write(st, o, (P[F_TI], P["layout"], P["size"]), I(0), True)
                if j:
                    cx.write(st, o, (P[F_TI], P["layout"], P["align"]), AL, True)
                cx.write(st, o, (P[F_LEN],), n, True)
                cx.write(st, o, (P[F_CAP],), I(0), True)
            else:
                if j:
                    cx.write(st, o, (P[F_TI], P["layout"], P["size"]), S, True)
                    cx.write(st, o, (P[F_TI], P["layout"], P["align"]), AL, True)
                a = alloc[j]
                cx.write(st, o, (P[F_LEN],), mul(n, S) if a else I(0), True)
                C = C_ if j == 0 else D_
                cx.write(st, o, (P[F_CAP],), (C if by else mul(c, S)) if a else I(0), True)
                if j == 0:
                    st = st.assume(lt(I(0), S))
                if a and by:
                    st = st.assume(le(scale(S, int(by)), C))
                    st = st.assume(le(mul(n, S), C))
                    st = st.assume(le(I(0), n))
                elif a:
                    st = st.assume(lt(I(0), c))
                    st = st.assume(le(n, c))
        return st
    return facts


def modes(k):
    yield True, ()
    if k == 1:
        yield False, (0,)
        yield False, (1,)
    else:
        for a in (0, 1):
            for b in (0, 1):
                yield False, (a, b)


def make_sim(root, s, f, zst, alloc, by=False):
    cx = root.cx
    vecs = []
    S = AL = None
    init = cx_init(root, f, zst, alloc, by)
    for j, i in enumerate(uv_params(f)):
        o = T("obj", root.args[i])
        base = init.store.get(o)
        n, c = (n_, c_) if j == 0 else (m_, d_)
        if not zst and not alloc[j]:
            n, c = I(0), I(0)
        v = Vec("self" if j == 0 else "other", o, n, c)
        ti = fld(base, F_TI)
        if j == 0:
            AL = fld(fld(ti, "layout"), "align")
            S = fld(fld(ti, "layout"), "size")
        v.ti = ti
        v.at = T("at", root.args[i])
        v.len, v.cap, v.data = fld(base, F_LEN), fld(base, F_CAP), fld(base, F_DATA)
        v.n0bytes = v.len
        v.owned = (v.data, v.cap) if (not zst and alloc[j]) else None
        v.owned0 = v.owned
        v.released = False
        vecs.append(v)
    sim = Sim(cx, s, vecs, S, AL, zst)
    sim.by = by
    return sim


def cx_init(root, f, zst, alloc, by=False):
    st = State()
    return pre_facts(f, zst, alloc, by)(root.cx, st, root.args)


def uv_functions(an):
    out = []
    for f in an.prog.fns.values():
        if f.path.startswith(UVT + "::") or f.path == DROP:
            if "{closure}" in f.path or not uv_params(f):
                continue
            if not f.d["reachable"] and f.path != DROP:
                continue
            out.append(f)
    return out


KNOWN = ("push_raw", "pop", "swap_remove", "swap_move_element_to_other_vec", "realloc", "as_slice", "as_slice_mut", "get_raw",
         "get_mut_raw", "as_immut_ptr", "as_mut_ptr", "len", "raw_len", "is_empty", "get_type_info", "new_from_untyped_vec", "drop")


def replay(sim, root, s, upto=None):
    """Replay a path; loops take the container fields at their header."""
    cx = root.cx
    for e in s.events:
        if e[0] == "loop":
            L = cx.loops.get(e[1])
            if L is None:
                sim.issue("contents", "undecided", e, "a loop that was not summarised")
                continue
            at_head(sim, L)
            if any(x[0] not in ("sub",) for s2, _ in L.iters for x in L.events(s2)):
                sim.loops = getattr(sim, "loops", []) + [(L, [(v.len, v.cap, v.data, v.owned) for v in sim.vecs])]
                for v in sim.vecs:
                    v.looped = True
            continue
        sim.step(e)


def at_head(sim, L):
    for v in sim.vecs:
        o = L.head.store.get(v.obj)
        if o is not None:
            d = fld(o, F_DATA)
            if d is not v.data or fld(o, F_CAP) is not v.cap:
                sim.reallocs = True       # the allocation at the header is whatever earlier iterations left
            v.len, v.cap = fld(o, F_LEN), fld(o, F_CAP)
            if d is not v.data:
                v.data = d
                v.owned = (d, v.cap) if v.owned is not None else None


def uv_results(an):
    """All (function, mode, path, replayed simulation), cached.  The representation invariant has two forms (see pre_facts);
    the operations have to preserve one of them, all together."""
    if hasattr(an, "_uv"):
        return an._uv
    an._uv = uv_results_for(an, False)
    rep = Report("C15")
    judge_memory(an, rep, an._uv)
    if any(o.status == "bad" for o in rep.obls):
        # room for one element, or for as many as the first allocation makes room for
        for by in (1, 4, 2, 8):
            alt = uv_results_for(an, by)
            rep2 = Report("C15")
            judge_memory(an, rep2, alt)
            if not any(o.status == "bad" for o in rep2.obls):
                an._uv = alt
                break
    return an._uv


def uv_results_for(an, by):
    out = []
    for f in uv_functions(an):
        k = len(uv_params(f))
        for zst, alloc in modes(min(k, 2)):
            r = an.root(f.path, bounds={}, tag="uv%s%s%s" % (zst, alloc, "b%d" % by if by else ""), facts=pre_facts(f, zst, alloc, by), key=f.key)
            if r is None:
                out.append((f, zst, alloc, None, None, None, None))
                continue
            for kind, s, v in r.res:
                sim = make_sim(r, s, f, zst, alloc, by)
                if tainted(r.cx, s.events):
                    out.append((f, zst, alloc, r, s, (kind, v), None))
                    continue
                replay(sim, r, s)
                for L, st0 in getattr(sim, "loops", ()):
                    for s2, _ in L.iters:
                        sub_ = make_sim(r, s2, f, zst, alloc, by)
                        at_head(sub_, L)
                        sub_.run([e for e in L.events(s2) if e[0] != "loop"])
                        sim.issues += sub_.issues
                        sim.oks += sub_.oks
                        sim.iters = getattr(sim, "iters", []) + [(L, s2, sub_)]
                out.append((f, zst, alloc, r, s, (kind, v), sim))
    return out


def mode_txt(zst, alloc):
    return "zero-sized" if zst else "/".join("allocated" if a else "nothing allocated" for a in alloc)


def note_fn(rep, f, an):
    rep.functions.add(f.path)


# ---------------------------------------------------------------- C15
@rule("C15")
def memory(an, rep):
    judge_memory(an, rep, uv_results(an))


def judge_memory(an, rep, results):
    for f, zst, alloc, r, s, kv, sim in results:
        rep.functions.add(f.path)
        fn = f.path
        if r is None:
            rep.und("bounds", fn, an.errors.get(f.path, "not analysed"))
            continue
        rep.paths += 1
        if sim is None:
            rep.und("bounds", fn, "an unknown function runs on this path")
            continue
        if getattr(sim, "reallocs", False):
            rep.und("bounds", fn, "the allocation is replaced in a loop")
            continue
        for ru, stt, e, d in sim.issues:
            if ru in ("contents",):
                continue
            (rep.bad if stt == "bad" else rep.und)(ru, wh(fn, e), d)
        for _ in range(sim.oks):
            rep.ok("memory-access", fn)
        invariant(rep, f, zst, alloc, r, s, kv, sim)
        result(rep, f, zst, alloc, r, s, kv, sim)
        refused(rep, f, zst, alloc, r, s, kv, sim)


def invariant(rep, f, zst, alloc, r, s, kv, sim):
    fn = f.path
    for v in sim.vecs:
        if v.released:
            continue
        if zst:
            if s.decide(eq(v.cap, I(0), True)) is True:
                rep.ok("representation", fn)
            else:
                rep.bad("representation", fn, "records a capacity of %s for zero-sized elements" % short(v.cap))
            continue
        ln, cp = sim.elems(v.len), sim.elems(v.cap)
        if ln is None or cp is None and not sim.by:
            rep.bad("representation", fn, "length %s or capacity %s is not a whole number of elements" % (short(v.len), short(v.cap)))
            continue
        if s.decide(le(ln, cp) if cp is not None else le(v.len, v.cap)) is not True:
            rep.bad("representation", fn, "length %s can exceed capacity %s" % (short(v.len), short(v.cap)))
            continue
        if sim.by and v.owned is not None and s.decide(le(scale(sim.S, int(sim.by)), v.cap)) is not True:
            rep.bad("representation", fn, "capacity %s need not have room for %d elements" % (short(v.cap), sim.by))
            continue
        if v.owned is None:
            if s.decide(eq(v.cap, I(0), True)) is not True:
                rep.bad("representation", fn, "records capacity %s although nothing is allocated" % short(v.cap))
                continue
            if any(x[0] == "new" and all(y.data is not x[1] for y in sim.vecs) for x in sim.freed) and kv[0] == "ret":
                rep.bad("representation", fn, "an allocation is not kept")
                continue
        else:
            if kv[0] == "ret" and (v.owned[0] is not v.data or s.decide(eq(v.owned[1], v.cap, True)) is not True):
                rep.bad("representation", fn, "records %s with capacity %s for the allocation %s of %s bytes" % (short(v.data), short(v.cap), short(v.owned[0]), short(v.owned[1])))
                continue
            if kv[0] != "ret" and v.owned[0] is v.data and s.decide(eq(v.owned[1], v.cap, True)) is not True:
                rep.bad("representation", fn, "a panic leaves capacity %s for an allocation of %s bytes" % (short(v.cap), short(v.owned[1])))
                continue
        rep.ok("representation", fn)
    if f.path == DROP and kv[0] == "ret":
        v = sim.vecs[0]
        if v.owned0 is not None and not v.released:
            rep.bad("allocation", fn, "the allocation is not released on this path")
        else:
            rep.ok("released", fn)


def result(rep, f, zst, alloc, r, s, kv, sim):
    """What the observers return."""
    kind, v = kv
    fn = f.path
    name = f.d["name"]
    A = sim.vecs[0]
    ln = A.n0
    if kind != "ret":
        if name in ("get_raw", "get_mut_raw", "len", "raw_len", "is_empty", "as_immut_ptr", "as_mut_ptr", "get_type_info"):
            rep.bad("result", wh(fn, v) if isinstance(v, tuple) else fn, "%s panics (%s elements)" % (name, mode_txt(zst, alloc)))
        return
    if name in ("get_raw", "get_mut_raw"):
        i = r.args[1]
        var = s.variant(v) if v.op != "agg" else v.args[2]
        if var == "None":
            if s.decide(le(ln, i)) is True:
                rep.ok("result", fn)
            else:
                rep.bad("result", fn, "reports absence for an index below the length (%s)" % mode_txt(zst, alloc))
        elif var == "Some":
            if s.decide(lt(i, ln)) is not True:
                rep.bad("result", fn, "hands out element %s without checking it against the length (%s)" % (short(i), mode_txt(zst, alloc)))
            else:
                sim.issues.clear()
                sim.oks = 0
                sim.pointer(None, vfld(v, "Some", "0"), I(0) if zst else i, name)
                for ru, stt, e, d in sim.issues:
                    (rep.bad if stt == "bad" else rep.und)(ru, fn, d)
                for _ in range(sim.oks):
                    rep.ok("result", fn)
        else:
            rep.und("result", fn, "result not understood")
    elif name in ("as_immut_ptr", "as_mut_ptr"):
        sim.issues.clear()
        sim.oks = 0
        sim.pointer(None, v, I(0), name)
        for ru, stt, e, d in sim.issues:
            (rep.bad if stt == "bad" else rep.und)(ru, fn, d)
        for _ in range(sim.oks):
            rep.ok("result", fn)
    elif name == "len":
        judge(rep, s, eq(v, ln, True), "result", fn, "reports length %s instead of %s" % (short(v), short(ln)))
    elif name == "is_empty":
        e = eq(ln, I(0), True)
        a, b = s.decide(v), s.decide(e)
        if v is e or (a is not None and a == b):
            rep.ok("result", fn)
        else:
            # byte length compared with zero
            # (a length is never negative)
            okk = v.op in ("eq0", "le0") and (v.args[0] is ln or not zst and s._posfactor(v.args[0]) in (e.args[0] if e.op == "eq0" else None,))
            if okk:
                rep.ok("result", fn)
            else:
                w = witness(sim, s, None, lambda env: nums.value(v, env) != (env[n_] == 0 if ln is n_ else True))
                if w:
                    rep.bad("result", fn, "a container of %s elements %s reported as empty (%s)" % (
                        w[n_] if ln is n_ else 0, "is" if ln is n_ and w[n_] else "is not", mode_txt(zst, alloc)))
                else:
                    rep.und("result", fn, "emptiness is computed as %s" % short(v))
    elif name == "new_from_untyped_vec":
        judge(rep, s, eq(fld(v, F_LEN), I(0), True), "result", fn, "a new container has length %s" % short(fld(v, F_LEN)))
        judge(rep, s, eq(fld(v, F_CAP), I(0), True), "result", fn, "a new container has capacity %s" % short(fld(v, F_CAP)))


SIZES = ((1, 1), (2, 2), (4, 4), (8, 8), (12, 4), (24, 8), (64, 16))


def cases(sim):
    """Containers of every kind: (element size, alignment, lengths) and for each all capacities they may have."""
    import itertools
    live = [v.owned0 is not None for v in sim.vecs]
    for S, al in (((0, 1), (0, 8)) if sim.zst else SIZES):
        for ns in itertools.product((1, 2, 3, 0, 5, 16, 17, 40), repeat=len(sim.vecs)):
            if not sim.zst and any(n and not x for n, x in zip(ns, live)):
                continue
            envs = []
            for caps in itertools.product(*[[0] if sim.zst or not x else [c for c in (1, 2, 3, 4, 5, 8, 16, 17, 20, 64, 100, 256) if c >= n]
                                            for n, x in zip(ns, live)]):
                env = {sim.S: S, sim.AL: al}
                for (n, c, C), x, y in zip(((n_, c_, C_), (m_, d_, D_)), ns, caps):
                    env.update({n: x, c: y, C: y * S})
                envs.append(env)
            yield ns, envs


def witness(sim, s, index, pred):
    """Lengths (and an index below the length) that follow this path whatever the capacities are, and for which pred holds."""
    facts = [T("le0", p) for p in s.ints] + [f if v else T("not", f) for f, v in s.bools.items()
                                             if not (f.op == "isnull" and v is False or f.op == "layok" and v is True)]
    if s.nes:
        return None
    for ns, envs in cases(sim):
        for i in (range(min(ns[0], 20)) if index is not None else (0,)):
            try:
                for env in envs:
                    if index is not None:
                        env[index] = i
                    if not (all(nums.value(f, env) for f in facts) and pred(env)):
                        break
                else:
                    return envs[0]
            except nums.Opaque:
                return None
    return None


REFUSERS = {"swap_remove": 1, "swap_move_element_to_other_vec": 2, "pop": None, "push_raw": None}


def refused(rep, f, zst, alloc, r, s, kv, sim):
    """An explicit panic must not be reached by a request that the container can carry out."""
    v = kv[1]
    name = f.d["name"]
    if kv[0] == "ret" or name not in REFUSERS or not str(v[0]).startswith(
            ("core::panicking", "std::rt::begin_panic", "divzero", "overflow", "index", "std::option", "std::result", "core::option", "core::result")):
        return
    k = REFUSERS[name]
    w = witness(sim, s, r.args[k] if k is not None else None, lambda env: True)
    if w:
        txt = " of element %d" % w[r.args[k]] if k is not None else ""
        rep.bad("valid-accepted", wh(f.path, v), "refuses%s although the container holds %d elements (%s)" % (
            txt, w[n_] if sim.vecs[0].n0 is n_ else 0, mode_txt(zst, alloc)))
    else:
        rep.ok("valid-accepted", f.path)


def judge(rep, s, c, ru, fn, msg):
    d = s.decide(c)
    if d is True:
        rep.ok(ru, fn)
    elif d is False or (d is None and c.op in ("eq0", "le0")):
        rep.bad(ru, fn, msg)
    else:
        rep.und(ru, fn, msg)


# ---------------------------------------------------------------- element contracts
SPEC = {"push_raw": ("push",), "pop": ("pop",), "swap_remove": ("remove",), "swap_move_element_to_other_vec": ("move",)}


def contract(an, rep, names, ru):
    """The effect of the mutating operations on the sequence of elements."""
    for f, zst, alloc, r, s, kv, sim in uv_results(an):
        name = f.d["name"]
        if name not in names:
            continue
        fn = f.path
        rep.functions.add(fn)
        if r is None:
            rep.und(ru, fn, an.errors.get(f.path, "not analysed"))
            continue
        rep.paths += 1
        if sim is None:
            rep.und(ru, fn, "an unknown function runs on this path")
            continue
        A = sim.vecs[0]
        B_v = sim.vecs[1] if len(sim.vecs) > 1 else None
        kind, v = kv
        txt = mode_txt(zst, alloc)
        n = A.n0
        ln = A.len if zst else sim.elems(A.len)
        if ln is None:
            rep.bad(ru, fn, "the length becomes %s bytes, not a whole number of elements" % short(A.len))
            continue
        if kind != "ret":
            panic_contract(rep, f, zst, alloc, r, s, kv, sim, ru, txt, ln)
            continue
        if getattr(sim, "loops", None):
            rep.und(ru, fn, "the elements are changed in a loop")
            continue
        if any(x[0] == "contents" for x in sim.issues):
            rep.und(ru, fn, "moves a block of elements")
            continue
        has_drop = droppable(s, A)
        if name == "push_raw":
            judge(rep, s, eq(ln, add(n, I(1)), True), ru, fn, "the length becomes %s instead of %s (%s)" % (short(ln), short(add(n, I(1))), txt))
            if sim.drops:
                rep.bad(ru, wh(fn, sim.drops[0][3]), "a destructor runs while a value is pushed")
            if not zst:
                slot(rep, sim, A, n, T("src", r.args[1]), ru, fn, "the new last element is")
                others(rep, sim, A, (n,), ru, fn)
        elif name == "pop":
            if v is FALSE or s.decide(v) is False:
                judge(rep, s, eq(n, I(0), True), ru, fn, "pop reports an empty container although it holds elements (%s)" % txt)
                judge(rep, s, eq(ln, n, True), ru, fn, "pop reports an empty container but the length becomes %s" % short(ln))
                continue
            if s.decide(v) is not True:
                rep.und(ru, fn, "result %s" % short(v))
                continue
            if s.decide(lt(I(0), n)) is not True:
                rep.bad(ru, fn, "pops from a container that can be empty (%s)" % txt)
                continue
            judge(rep, s, eq(ln, sub(n, I(1)), True), ru, fn, "the length becomes %s instead of %s (%s)" % (short(ln), short(sub(n, I(1))), txt))
            dropped(rep, sim, A, zst, sub(n, I(1)), has_drop, ru, fn, txt)
            if not zst:
                others(rep, sim, A, (sub(n, I(1)),), ru, fn)
        elif name == "swap_remove":
            i = r.args[1]
            if s.decide(lt(i, n)) is not True:
                rep.bad(ru, fn, "an index that is not below the length is accepted (%s)" % txt)
                continue
            last = sub(n, I(1))
            judge(rep, s, eq(ln, last, True), ru, fn, "the length becomes %s instead of %s (%s)" % (short(ln), short(last), txt))
            dropped(rep, sim, A, zst, i, has_drop, ru, fn, txt)
            if not zst:
                hole(rep, sim, A, i, last, ru, fn)
        elif name == "swap_move_element_to_other_vec":
            i = r.args[2]
            if s.decide(lt(i, n)) is not True:
                rep.bad(ru, fn, "an index that is not below the length is accepted (%s)" % txt)
                continue
            last = sub(n, I(1))
            judge(rep, s, eq(ln, last, True), ru, fn, "the length becomes %s instead of %s (%s)" % (short(ln), short(last), txt))
            m = B_v.n0
            lb = B_v.len if zst else sim.elems(B_v.len)
            judge(rep, s, eq(lb, add(m, I(1)), True) if lb is not None else FALSE, ru, fn, "the other container's length becomes %s instead of %s (%s)" % (short(lb) if lb is not None else short(B_v.len), short(add(m, I(1))), txt))
            if sim.drops:
                rep.bad(ru, wh(fn, sim.drops[0][3]), "a destructor runs while a value is moved")
            if not zst:
                slot(rep, sim, B_v, m, T("old", A.obj, i), ru, fn, "the element moved to the other container is", s)
                others(rep, sim, B_v, (m,), ru, fn)
                hole(rep, sim, A, i, last, ru, fn)


def droppable(s, A):
    return s.variant(fld(A.ti, "drop_fn"))


def same_value(s, a, b):
    if a is None:
        return None
    if a is b:
        return True
    if a.op == b.op == "old" and a.args[0] is b.args[0]:
        return s.decide(eq(a.args[1], b.args[1], True))
    if a.op == b.op == "src":
        return True if s.decide(eq(a.args[0], b.args[0])) is True else False
    return False


def slot(rep, sim, v, k, want, ru, fn, txt, s=None):
    got = sim.value(v, k)
    d = same_value(sim.st, got, want)
    if d is True:
        rep.ok(ru, fn)
    elif d is None:
        rep.und(ru, fn, "%s not determined" % txt)
    else:
        rep.bad(ru, fn, "%s %s instead of %s" % (txt, valtxt(got), valtxt(want)))


def valtxt(v):
    if v is None:
        return "?"
    if v.op == "old":
        return "element %s" % short(v.args[1])
    if v.op == "src":
        return "the given value"
    return short(v)


def others(rep, sim, v, touched, ru, fn):
    """Elements other than the touched indices keep their values."""
    s = sim.st
    for i, val in v.over:
        if i is None:
            rep.und(ru, fn, "moves a block of elements")
            return
        if any(s.decide(eq(i, t, True)) is True for t in touched):
            continue
        if same_value(s, val, T("old", v.obj, i)) is True:
            continue
        rep.bad(ru, fn, "element %s is overwritten with %s" % (short(i), valtxt(val)))
        return
    rep.ok(ru, fn)


def hole(rep, sim, v, i, last, ru, fn):
    """After removing i the last element is at i and everything else is where it was."""
    s = sim.st
    d = s.decide(eq(i, last, True))
    if d is not True:
        slot(rep, sim, v, i, T("old", v.obj, last), ru, fn, "the removed element's place holds")
    others(rep, sim, v, (i, last), ru, fn)


def dropped(rep, sim, A, zst, idx, has_drop, ru, fn, txt):
    if has_drop == "None":
        if sim.drops:
            rep.bad(ru, wh(fn, sim.drops[0][3]), "calls a destructor although there is none")
        else:
            rep.ok(ru, fn)
        return
    if len(sim.drops) == 0:
        rep.bad(ru, fn, "the removed value is not dropped (%s)" % txt) if has_drop == "Some" or not_looked(sim, A) else rep.und(ru, fn, "destructor not determined")
        return
    if len(sim.drops) > 1:
        rep.bad(ru, wh(fn, sim.drops[1][3]), "the removed value is dropped more than once (%s)" % txt)
        return
    _, k, val, e, _l = sim.drops[0]
    if zst:
        rep.ok(ru, fn)
        return
    d = same_value(sim.st, val, T("old", A.obj, idx))
    if d is True:
        rep.ok(ru, fn)
    elif d is None:
        rep.und(ru, wh(fn, e), "dropped value not determined")
    else:
        rep.bad(ru, wh(fn, e), "drops %s instead of element %s" % (valtxt(val), short(idx)))


def not_looked(sim, A):
    """No decision about the destructor was taken on this path: it is ignored."""
    return sim.st.variant(fld(A.ti, "drop_fn")) is None


def panic_contract(rep, f, zst, alloc, r, s, kv, sim, ru, txt, ln):
    """A rejected request changes nothing and concerns an index out of range; destructor panics are C22's matter."""
    fn = f.path
    name = f.d["name"]
    A = sim.vecs[0]
    v = kv[1]
    w = wh(fn, v) if isinstance(v, tuple) else fn
    what = v[0] if isinstance(v, tuple) and v and isinstance(v[0], str) else ""
    if sim.drops:
        rep.ok(ru, fn)       # during or after a destructor
        return
    judge(rep, s, eq(ln, A.n0, True), ru, w, "a panic leaves length %s instead of %s" % (short(ln), short(A.n0)))
    if name == "pop":
        rep.bad(ru, w, "pop panics (%s)" % txt)
    elif name in ("swap_remove", "swap_move_element_to_other_vec"):
        i = r.args[1] if name == "swap_remove" else r.args[2]
        if s.decide(lt(i, A.n0)) is True and "panicking::panic" in what and UVT + "::" + name in (v[-1] if isinstance(v, tuple) else ""):
            if not type_mismatch(s, sim):
                rep.bad(ru, w, "rejects an index below the length (%s)" % txt)


def type_mismatch(s, sim):
    """The panic is the check that both containers hold the same type."""
    for a, b in s.nes:
        if "layout" in show(a) and "layout" in show(b):
            return True
    for k, v in s.bools.items():
        if v is False and "layout" in show(k):
            return True
    return False


@rule("C15", "C05", "C06")
def lengths(an, rep):
    contract(an, rep, tuple(SPEC), "container-contract")


@rule("C04")
def rows_contract(an, rep):
    contract(an, rep, ("swap_remove", "swap_move_element_to_other_vec"), "container-contract")


@rule("C16")
def drops(an, rep):
    contract(an, rep, tuple(SPEC), "container-contract")
    teardown(an, rep)
    for f, zst, alloc, r, s, kv, sim in uv_results(an):
        if f.d["name"] in SPEC or f.path == DROP or sim is None:
            continue
        if sim.drops:
            rep.bad("no-stray-drop", wh(f.path, sim.drops[0][3]), "a destructor runs in %s" % f.d["name"])
        else:
            rep.ok("no-stray-drop", f.path)


@rule("C16", "C15")
def type_info_kept(an, rep):
    type_info_contract(an, rep)


@rule("C07")
def type_info_rule(an, rep):
    type_info_contract(an, rep)


def type_info_contract(an, rep):
    """A container derived from another has its element type; observers report the element type it was given."""
    ru = "element-type"
    r = an.root(UVT + "::new_from_raw", bounds={}, tag="uvnew")
    if r is None:
        rep.und(ru, UVT + "::new_from_raw", an.errors.get(UVT + "::new_from_raw", "not found"))
    else:
        rep.functions.add(r.fn.path)
        for s, v in r.rets():
            rep.paths += 1
            same_ti(rep, s, fld(v, F_TI), r.args[0], ru, r.fn.path)
            judge(rep, s, eq(fld(v, F_LEN), I(0), True), ru, r.fn.path, "a new container has length %s" % short(fld(v, F_LEN)))
            judge(rep, s, eq(fld(v, F_CAP), I(0), True), ru, r.fn.path, "a new container has capacity %s" % short(fld(v, F_CAP)))
    for name in ("new_from_untyped_vec", "get_type_info"):
        r = an.root(UVT + "::" + name, bounds={}, tag="uvnew")
        if r is None:
            rep.und(ru, UVT + "::" + name, an.errors.get(UVT + "::" + name, "not found"))
            continue
        rep.functions.add(r.fn.path)
        for s, v in r.rets():
            rep.paths += 1
            src = fld(r.cx.read(State(), T("obj", r.args[0]), ()), F_TI)
            same_ti(rep, s, fld(v, F_TI) if name != "get_type_info" else v, src, ru, r.fn.path)


def same_ti(rep, s, got, want, ru, fn):
    a, b = fld(got, "layout"), fld(want, "layout")
    if s.decide(eq(a, b)) is True or (s.decide(eq(fld(a, "size"), fld(b, "size"), True)) is True and s.decide(eq(fld(a, "align"), fld(b, "align"), True)) is True):
        rep.ok(ru, fn)
    elif tainted_term(a):
        rep.und(ru, fn, "layout %s" % short(a))
    else:
        rep.bad(ru, fn, "the layout becomes %s instead of %s" % (short(a), short(b)))
    x, y = fld(got, "drop_fn"), fld(want, "drop_fn")
    vx = x.args[2] if x.op == "agg" else s.variant(x)
    vy = s.variant(y)
    if x is y or (vx == vy == "None") or (vx == vy == "Some" and vfld(x, "Some", "0") is vfld(y, "Some", "0")):
        rep.ok(ru, fn)
    elif tainted_term(x):
        rep.und(ru, fn, "destructor %s" % short(x))
    else:
        rep.bad(ru, fn, "the destructor becomes %s instead of %s" % (short(x), short(y)))


def tainted_term(t):
    return any(x.op in ("call", "unk") for x in subterms(t))


def teardown(an, rep):
    """Dropping a container drops every element exactly once and leaves none."""
    ru = "teardown"
    for f, zst, alloc, r, s, kv, sim in uv_results(an):
        if f.path != DROP:
            continue
        fn = f.path
        rep.functions.add(fn)
        if r is None or sim is None:
            rep.und(ru, fn, "not analysed")
            continue
        rep.paths += 1
        if kv[0] != "ret":
            continue
        A = sim.vecs[0]
        n = A.n0
        if s.decide(eq(n, I(0), True)) is True:
            rep.ok(ru, fn)
            continue
        hd = s.variant(fld(A.ti, "drop_fn"))
        if hd == "None":
            rep.ok(ru, fn)
            continue
        its = [(L, s2, x) for L, s2, x in getattr(sim, "iters", []) if s2.variant(fld(A.ti, "drop_fn")) != "None"]
        loops = {L.id: L for L, _, x in its if any(y.drops for L2, _, y in its if L2 is L)}
        if not loops:
            if sim.drops:
                rep.bad(ru, fn, "only some of the elements are dropped (%s)" % mode_txt(zst, alloc))
            else:
                rep.bad(ru, fn, "the remaining elements are never dropped (%s)" % mode_txt(zst, alloc))
            continue
        if len(loops) > 1:
            rep.und(ru, fn, "several loops drop elements")
            continue
        L, = loops.values()
        K = T("K", L.id)
        # the loop runs until every element was visited
        m = I(len(sim.drops))       # dropped outside the loop: the first iterations, peeled off
        d = s.decide(le(n, add(K, m)))
        vague = any(x.op == "lv" for x in L.vals.values())      # the course of the loop is not determined
        if d is True:
            rep.ok(ru, fn)
        elif vague:
            rep.und(ru, fn, "the loop that drops the elements is not determined")
        else:
            rep.bad(ru, fn, "the loop that drops the elements can end before all %s were dropped (%s)" % (short(n), mode_txt(zst, alloc)))
        for L2, s2, x in its:
            if L2 is not L:
                continue
            if len(x.drops) != 1 and (vague or len(x.drops) == len({y[1] for y in x.drops} - {None}) > 1):
                rep.und(ru, fn, "an iteration drops %d elements (%s)" % (len(x.drops), mode_txt(zst, alloc)))
                continue
            if len(x.drops) != 1:
                rep.bad(ru, fn, "an iteration drops %d elements (%s)" % (len(x.drops), mode_txt(zst, alloc)))
                continue
            if zst:
                rep.ok(ru, fn)
                continue
            k = x.drops[0][1]
            if k is None:
                continue
            c0, dd = parts(k)
            peeled = {x.drops[0][1]} | {y[1] for y in sim.drops}
            if dd.get(K) in (1, -1) and sim.drops and None not in peeled:
                first = subst(k, {K: I(0)})
                pre = [y[1] for y in sim.drops if not contains(y[1], K)]
                post = [y[1] for y in sim.drops if contains(y[1], K)]
                if {sub(y, first) for y in pre} != {I(-dd[K] * (j + 1)) for j in range(len(pre))} or \
                        {sub(y, k) for y in post} != {I(dd[K] * j) for j in range(len(post))}:
                    rep.bad(ru, wh(fn, sim.drops[0][3]), "element %s is dropped outside the loop over the elements from %s on" % (short(sim.drops[0][1]), short(first)))
                    continue
            if dd.get(K) not in (1, -1):
                rep.bad(ru, wh(fn, x.drops[0][3]), "iteration %s drops element %s: some element is dropped twice or never" % (short(K), short(k)))
            else:
                rep.ok(ru, fn)


# ---------------------------------------------------------------- C22 (container)
@rule("C22")
def forget_before_drop(an, rep):
    ru = "forgotten-before-drop"
    for f, zst, alloc, r, s, kv, sim in uv_results(an):
        if sim is None or r is None:
            if f.path == DROP or f.d["name"] in SPEC:
                rep.und(ru, f.path, "not analysed")
            continue
        fn = f.path
        for x in [sim] + [y for _, _, y in getattr(sim, "iters", ())]:
            for v, k, val, e, ln in x.drops:
                rep.functions.add(fn)
                rep.paths += 1
                if f.path == DROP:
                    # the container is gone: a panic leaves the remaining elements alone, nobody reads them again
                    rep.ok(ru, fn)
                    continue
                if zst:
                    judge(rep, x.st, lt(ln, v.n0), ru, wh(fn, e), "the value is still counted while its destructor runs")
                    continue
                if k is None:
                    rep.und(ru, wh(fn, e), "dropped element not determined")
                    continue
                l2 = x.elems(ln)
                if l2 is None:
                    rep.und(ru, wh(fn, e), "length not in elements")
                    continue
                judge(rep, x.st, le(l2, k), ru, wh(fn, e), "element %s is still counted (length %s) while its destructor runs" % (short(k), short(l2)))
