"""The builder's staging memory (C17): who owns the buffer, how large it is, what is written to and read from it."""
from .analysis import *
from .ops import *
from .nums import differ

RULES = {}
EBT = "arche_tape::entity_builder::EntityBuilder"
WT = "arche_tape::world::World"
EB = EBT + "::"
EDROP = "<" + EBT + " as std::ops::Drop>::drop"
WDROP = "<" + WT + " as std::ops::Drop>::drop"
BUILD_ = EB + "build"


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def yes(s, c):
    return s.decide(c) is True


def same(s, a, b):
    return a is b or s.decide(eq(a, b, True)) is True


NUMBERS = ("fld", "at", "max", "min", "int", "vlen", "sym", "K", "mul")


def known(*ts):
    """Are these sizes made only of quantities the analysis understands?  (If not, what is not shown is not refuted either.)"""
    return all(a.op in NUMBERS for t in ts for a in parts(t)[1])


# ---------------------------------------------------------------- the parts of a builder and of the kept buffer
def is_adt(ty, *paths):
    return ty.get("k") == "adt" and ty["path"] in paths


def is_bytes(ty):
    if is_adt(ty, "std::ptr::NonNull"):
        return ty["args"][0].get("n") == "u8" or "MaybeUninit" in str(ty["args"][0])
    return ty.get("k") == "ptr" and (ty["t"].get("n") == "u8" or "MaybeUninit" in str(ty["t"]))


def is_ids(ty):
    return is_adt(ty, "std::vec::Vec") and is_adt(ty["args"][0], "arche_tape::entities::EcsId")


def leaves(prog, ty, pre=()):
    """(path of field names, type) of the parts of a type, own structs and tuples opened."""
    if ty.get("k") == "tuple":
        for i, t in enumerate(ty["ts"]):
            yield from leaves(prog, t, pre + (str(i),))
        return
    if ty.get("k") == "adt" and ty["path"] in prog.adts and ty["path"].startswith("arche_tape::") and not ty.get("enum") and len(pre) < 3 \
            and not ty["path"].endswith(("EcsId", "ComponentMeta")):
        for f in prog.adts[ty["path"]]["variants"][0]["fields"]:
            yield from leaves(prog, f[1], pre + (f[0],))
        return
    yield pre, ty


class Layout_:
    """Field paths: builder data/cap/len/ids/world, world reuse slot, and the parts of what the slot holds."""


def find_layout(an):
    prog = an.prog
    if EBT not in prog.adts or WT not in prog.adts:
        return None, "types not found"
    R = Layout_()
    fs = [x for f in prog.adts[EBT]["variants"][0]["fields"] for x in leaves(prog, f[1], (f[0],))]

    def one(name, c):
        c = list(c)
        if len(c) != 1:
            raise ValueError("%s: %d candidates" % (name, len(c)))
        return c[0]
    try:
        R.data = one("buffer", [p for p, t in fs if is_bytes(t)])
        R.ids = one("ids", [p for p, t in fs if is_ids(t)])
        ints = [p for p, t in fs if t.get("n") == "usize"]
        R.cap = one("capacity", [p for p in ints if "cap" in p[-1]])
        R.len = one("length", [p for p in ints if p[-1] in ("len", "length", "used", "offset", "size", "bytes")])
        R.world = one("world", [p for p, t in fs if t.get("k") == "ref" and is_adt(t["t"], WT)])
        R.reuse = R.rparts = None
        for f in prog.adts[WT]["variants"][0]["fields"]:
            if is_adt(f[1], "std::option::Option"):
                ps = list(leaves(prog, f[1]["args"][0]))
                b = [p for p, t in ps if is_bytes(t)]
                if len(b) == 1:
                    if R.reuse:
                        raise ValueError("kept buffer: two candidates")
                    R.reuse = f[0]
                    R.rdata = b[0]
                    R.rcap = one("kept capacity", [p for p, t in ps if t.get("n") == "usize"])
                    R.rids = one("kept ids", [p for p, t in ps if is_ids(t)])
        if not R.reuse:
            raise ValueError("kept buffer: not found")
    except ValueError as e:
        return None, str(e)
    return R, ""


def leaf(v, path):
    for f in path:
        v = fld(v, f)
    return v


# ---------------------------------------------------------------- replaying what a path does with memory
class Heap:
    def __init__(self, rep, s, fn, R):
        self.rep, self.s, self.fn, self.R = rep, s, fn, R
        self.live = {}        # base pointer -> size in bytes
        self.kept = {}        # base pointer -> number of staged bytes it is known to hold
        self.gone = set()
        self.failed = False
        self.und = None

    def bad(self, ru, e, msg):
        self.failed = True
        self.rep.bad(ru, wh(self.fn, e), msg)

    def off(self, ru, e, msg, *ts):
        """Something was not shown: a violation if the sizes involved are understood."""
        if known(*ts):
            self.bad(ru, e, msg)
        else:
            self.failed = True
            self.und = msg + " (not recognised: %s)" % ", ".join(short(a, 40) for t in ts for a in parts(t)[1] if a.op not in NUMBERS)

    def base(self, p):
        off = I(0)
        while p.op == "padd":
            off = add(off, p.args[1])
            p = p.args[0]
        return p, off

    def block(self, p):
        """The live block a pointer is the start of."""
        b, off = self.base(p)
        return b if off is I(0) and b in self.live else None

    def release(self, e, p, lay, what):
        s = self.s
        b, off = self.base(p)
        if b in self.gone:
            self.bad("released-once", e, "the buffer is %s after it was already released" % what)
            return None
        if b not in self.live:
            if b.op in ("dangling", "ptrint") or b in getattr(self, "empty", ()):
                self.bad("released-once", e, "memory is %s although nothing was allocated" % what)
            else:
                self.und = "memory of unknown origin is %s: %s" % (what, short(p, 60))
            return None
        if off is not I(0):
            self.bad("allocated-size", e, "the buffer is %s through a pointer that is not its start" % what)
            return None
        n, al = fld(lay, "size"), fld(lay, "align")
        if not same(s, n, self.live[b]):
            if known(n, self.live[b]) or differ(s, n, self.live[b], given=[T("le0", sub(I(1), self.live[b]))]):
                self.bad("allocated-size", e, "the buffer is %s with size %s, it was allocated with %s" % (what, short(n, 60), short(self.live[b], 60)))
            else:
                self.und = "size %s not recognised: %s" % (what, short(n, 60))
        elif al.op == "int" and al is not self.al:
            self.bad("allocated-size", e, "the buffer is %s with alignment %s" % (what, short(al)))
        elif al.op != "int":
            self.und = "alignment not recognised: %s" % short(al, 40)
        else:
            self.rep.ok("allocated-size", wh(self.fn, e))
        self.gone.add(b)
        return b

    al = I(1)

    def run(self, events, len0):
        s = self.s
        for e in events:
            k = e[0]
            if k == "alloc":
                n = fld(e[2], "size")
                if not yes(s, le(I(1), n)) and s.decide(eq(n, I(0), True)) is not False:
                    self.off("allocated-size", e, "memory of size zero can be requested", n)
                al = fld(e[2], "align")
                if al.op == "int" and al is not self.al:
                    self.bad("allocated-size", e, "the buffer is allocated with alignment %s, other functions use %s" % (short(al), short(self.al)))
                self.live[e[1]] = n
                self.kept[e[1]] = I(0)
            elif k == "realloc":
                b = self.release(e, e[2], e[3], "grown")
                n = e[4]
                if not yes(s, le(I(1), n)) and s.decide(eq(n, I(0), True)) is not False:
                    self.off("allocated-size", e, "memory of size zero can be requested", n)
                self.live[e[1]] = n
                self.kept[e[1]] = self.kept.get(b, I(0))
                if b is not None:
                    if not yes(s, le(self.kept[b], n)):
                        self.off("within-buffer", e, "the buffer can shrink below the bytes staged in it", self.kept[b], n)
                    if s.decide(T("isnull", e[1])) is True:
                        # the request failed, the old block stays
                        self.live.pop(e[1])
                        self.gone.discard(b)
                    else:
                        self.live.pop(b, None)
            elif k == "dealloc":
                b = self.release(e, e[1], e[2], "released")
                self.live.pop(b, None)
            elif k == "copy":
                self.copy(e, len0)
            elif k == "loop":
                L = self.cx.loops.get(e[1])
                for st, _ in (L.iters if L else ()):
                    for x, ch in all_events(self.cx, L.events(st)):
                        if x[0] in ("alloc", "realloc", "dealloc"):
                            self.und = "memory is managed in a loop"

    def copy(self, e, len0):
        s = self.s
        src, dst, n = e[2], e[3], e[4]
        b, off = self.base(dst)
        if b in self.gone and b not in self.live:
            self.bad("within-buffer", e, "bytes are written to a buffer that was released")
            return
        sb, soff = self.base(src)
        if sb in self.gone and sb not in self.live:
            self.bad("within-buffer", e, "bytes are read from a buffer that was released")
            return
        if sb in self.live:
            if not yes(s, le(add(soff, n), self.live[sb])):
                self.off("within-buffer", e, "bytes beyond the end of the buffer are read", soff, n, self.live[sb])
        if b in self.live:
            end = add(off, n)
            if not yes(s, le(end, self.live[b])):
                self.off("within-buffer", e, "%s bytes are written at %s, the buffer has %s" % (short(n, 60), short(off, 40), short(self.live[b], 60)), end, self.live[b])
                return
            self.rep.ok("within-buffer", wh(self.fn, e))
            if sb in self.kept and off is I(0) and soff is I(0) and same(s, self.kept.get(sb, I(0)), len0) and yes(s, le(len0, n)):
                self.kept[b] = len0       # carried over
                self.carried = True
            elif same(s, off, self.kept[b]) and not (sb in self.kept):
                self.kept[b] = end
                self.wrote.append((b, off, n, e))
            elif sb in self.kept:
                self.und = "copy between buffers not recognised"
            elif yes(s, lt(off, self.kept[b])):
                self.bad("staged-once", e, "bytes that are staged already are overwritten")
            else:
                self.wrote.append((b, off, n, e))
        elif b.op in ("dangling", "ptrint") or b in self.empty:
            if not yes(s, eq(n, I(0), True)):
                self.bad("within-buffer", e, "bytes are written although nothing is allocated")


def holder(H, what, data, cap, e=None, strict=True):
    """Check that one owner's (pointer, capacity) describe a live block or nothing; returns the block owned."""
    s = H.s
    z = s.decide(eq(cap, I(0), True))
    if z is True:
        return None
    b = H.block(data)
    if b is None:
        base, off = H.base(data)
        if base in H.gone:
            H.bad("one-owner", e, "%s keeps a buffer that was released" % what)
        elif base in H.live:
            H.bad("one-owner", e, "%s keeps a pointer that is not the start of the buffer" % what)
        elif base.op in ("dangling", "ptrint") or base in H.empty:
            if z is False:
                H.bad("one-owner", e, "%s has a capacity although nothing is allocated" % what)
            else:
                H.und = "capacity of %s not recognised: %s" % (what, short(cap, 50))
        else:
            H.und = "buffer of %s not recognised: %s" % (what, short(data, 50))
        return None
    n = H.live[b]
    if not same(s, n, cap):
        H.bad("allocated-size", e, "%s records a capacity of %s for a buffer of %s bytes" % (what, short(cap, 60), short(n, 60)))
    elif b in H.fresh and s.decide(T("isnull", b)) is not False:
        H.bad("allocated-size", e, "%s keeps a pointer the allocator may have refused" % what)
    else:
        H.rep.ok("allocated-size", wh(H.fn, e))
    return b


def functions(an):
    """Functions to analyse: everything outside code can call that touches a builder or the kept buffer."""
    prog = an.prog
    own = [p for p, f in prog.bypath.items() if touches(prog, f)]
    return own


def sig_has(f, path):
    return any(path in json.dumps(t) for t in list(f.d.get("inputs") or []) + [f.d.get("output") or {}])


def touches(prog, fs):
    return any(sig_has(prog.fns[k] if isinstance(k, str) else k, EBT) for k in (fs if isinstance(fs, (list, tuple, set)) else [fs]))


def builder_methods(an):
    return tuple(p for p in an.prog.bypath if p.startswith(EB) and "{closure" not in p)


def roots(an, rep):
    """(path, how the builder comes in, root)"""
    prog = an.prog
    inl = builder_methods(an)
    out = []
    for p in prog.bypath:
        f = prog.get(p)
        if f is None or f.d.get("kind") == "Closure" or not f.d.get("inputs") and f.d.get("output") is None:
            continue
        if p in (EDROP, WDROP):
            r = an.root(p, inline=inl, tag="c17", unwind=True)
            out.append((p, "drop" if p == EDROP else "world", r))
            continue
        ins, o = f.d["inputs"], f.d["output"]
        has_in = [i for i, t in enumerate(ins) if EBT in json.dumps(t)]
        has_out = EBT in json.dumps(o)
        if not f.d.get("reachable") or not (has_in or has_out):
            continue
        r = an.root(p, inline=tuple(q for q in inl if q != p), tag="c17", unwind=True, facts=builder_facts if has_in and is_adt(ins[has_in[0]], EBT) else None)
        if has_in and not is_adt(ins[has_in[0]], EBT) and ins[has_in[0]].get("k") != "ref":
            rep.und("roots", p, "how the builder is passed is not recognised")
            continue
        out.append((p, ("value", has_in[0]) if has_in and is_adt(ins[has_in[0]], EBT) else ("ref", has_in[0]) if has_in else "new", r))
    return out


@rule("C17")
def ownership(an, rep):
    R, why = find_layout(an)
    if R is None:
        rep.und("roles", EBT, "the parts of the builder are not recognised: %s" % why)
        return
    rs = roots(an, rep)
    got = [p for p, _, r in rs]
    for need in (EDROP, WDROP, BUILD_):
        if need not in got:
            (rep.und if need == BUILD_ or an.has(need) else rep.bad)("released-once", need, "there is no code that releases the buffer" if need != BUILD_ else "not found")
    outside(an, rep, R, rs)
    # what is kept for the next builder: does it always have a capacity, and no ids?
    keep = {"cap": True, "ids": True}
    paths = []
    for p, how, r in rs:
        if r is None:
            rep.und("roots", p, "not analysed: %s" % an.errors.get(p))
            continue
        rep.functions.add(p)
        rep.functions |= set(r.cx.inlined)
        rep.paths += len(r.res)
        for k, s, v in r.res:
            for s1 in cases(R, r, how, s):
                paths.append((p, how, r, k, s1, v))
    for p, how, r, k, s, v in paths:
        for x in stored(R, r, how, s):
            if not yes(s, le(I(1), leaf(x, R.rcap))) and s.decide(eq(leaf(x, R.rcap), I(0), True)) is not False:
                keep["cap"] = False
            ids = leaf(x, R.rids)
            if not (ids.op == "vnew" or yes(s, eq(vlen(ids), I(0), True))):
                keep["ids"] = False
    for p, how, r, k, s, v in paths:
        one_path(an, rep, R, p, how, r, k, s, v, keep)


def entry(R, r, how):
    """(builder value at entry or None, object of the world, builder object for references)"""
    if how == "new" or how == "world":
        for a, t in zip(r.args, r.fn.d["inputs"]):
            if t.get("k") == "ref" and is_adt(t["t"], WT):
                return None, T("obj", a), None
        return None, None, None
    if how == "drop" or how[0] == "ref":
        a = r.args[0 if how == "drop" else how[1]]
        b = T("at", a)
        return b, T("obj", leaf(b, R.world)), T("obj", a)
    a = r.args[how[1]]
    return a, T("obj", leaf(a, R.world)), None


def kept0(R, W):
    return fld(T("at", W.args[0]), R.reuse)


def cases(R, r, how, s):
    """The path split into: nothing / something allocated by the builder, nothing / something kept by the world."""
    b, W, _ = entry(R, r, how)
    out = [s]
    if b is not None:
        cap = leaf(b, R.cap)
        ln = leaf(b, R.len)
        nxt = []
        for st in out:
            for v in (True, False):
                x = st.assume(eq(cap, I(0), True), v)
                x = x and x.assume(le(ln, cap), True)
                if x is not None:
                    nxt.append(x)
        out = nxt
    if W is not None:
        k0 = kept0(R, W)
        nxt = []
        for st in out:
            if st.variant(k0) is not None:
                nxt.append(st)
                continue
            for v in ("Some", "None"):
                x = st.setvar(k0, v)
                if x is not None:
                    nxt.append(x)
        out = nxt
    return out


def stored(R, r, how, s):
    """Values stored in the world's slot on a path."""
    b, W, _ = entry(R, r, how)
    out = []
    for e in s.events:
        if e[0] == "w" and e[1] is W and tuple(e[2]) == (pf(R.reuse),):
            v = e[3]
            if v.op == "some" or s.variant(v) == "Some":
                out.append(vfld(v, "Some", "0"))
    return out


def one_path(an, rep, R, p, how, r, kind, s, v, keep):
    cx = r.cx
    b, W, bo = entry(R, r, how)
    evs = list(s.events)
    if kind == "panic":
        if tainted(cx, evs):
            return
        if isinstance(v, tuple) and v[0] == "std::alloc::handle_alloc_error":
            return
    elif tainted(cx, evs):
        rep.und("one-owner", p, "an unknown function runs on this path")
        return
    # a panic that reports an arithmetic fault or a refused layout cannot happen for sizes that exist
    if W is not None:
        k0 = kept0(R, W)
        if s.variant(k0) == "Some":
            x = vfld(k0, "Some", "0")
            if keep["cap"]:
                s = s.assume(le(I(1), leaf(x, R.rcap)), True)
                if s is None:
                    return
            if keep["ids"]:
                s = s.assume(eq(vlen(leaf(x, R.rids)), I(0), True), True)
                if s is None:
                    return
    H = Heap(rep, s, p, R)
    H.cx = cx
    H.wrote = []
    H.carried = False
    H.empty = set()
    H.fresh = {e[1] for e in evs if e[0] in ("alloc", "realloc")}
    len0 = I(0)
    own0 = []
    if b is not None:
        d, c = leaf(b, R.data), leaf(b, R.cap)
        len0 = leaf(b, R.len)
        if s.decide(eq(c, I(0), True)) is True:
            H.empty.add(d)
        else:
            H.live[d] = c
            H.kept[d] = len0
            own0.append(d)
    if W is not None:
        k0 = kept0(R, W)
        if s.variant(k0) == "Some":
            x = vfld(k0, "Some", "0")
            d, c = leaf(x, R.rdata), leaf(x, R.rcap)
            if s.decide(eq(c, I(0), True)) is True:
                H.empty.add(d)
            else:
                H.live[d] = c
                H.kept[d] = I(0)
                own0.append(d)
        elif s.variant(k0) is None:
            k0 = None
    H.run(evs, len0)
    # who owns what at the end
    owners = []
    drops = [(i, e) for i, e in enumerate(evs) if e[0] == "drop" and EBT.split("::", 1)[1] in str(e[1]) and "Option" not in str(e[1]) and not str(e[1]).startswith("std::")]
    built = None
    if how in ("drop", "world"):
        pass
    elif how == "new" or how[0] == "value":
        res = v if kind == "ret" and isinstance(v, Term) and EBT in json.dumps(r.fn.d["output"]) else None
        if len(drops) > 1:
            H.bad("released-once", drops[1][1], "a builder is destroyed twice")
        for i, e in drops[:1]:
            built = e[2]
            owners.append(("the builder", built, e))
        if res is not None:
            built = res
            owners.append(("the builder", res, None))
        if how != "new" and res is None and not drops and kind == "ret":
            # the buffer has to be handed on by hand
            pass
    elif how[0] == "ref":
        built = T("at", r.args[how[1]])
        owners.append(("the builder", None, None))
    held = []
    for what, val, e in owners:
        if val is None:
            d = cx.read(s, bo, tuple(pf(f) for f in R.data))
            c = cx.read(s, bo, tuple(pf(f) for f in R.cap))
        else:
            d, c = leaf(val, R.data), leaf(val, R.cap)
        x = holder(H, what, d, c, e)
        if x is not None:
            held.append((what, x, e))
    if W is not None and how != "world":      # a world that is dropped owns nothing afterwards
        reuse = cx.read(s, W, (pf(R.reuse),))
        var = s.variant(reuse)
        if var == "Some":
            x = vfld(reuse, "Some", "0")
            y = holder(H, "the world", leaf(x, R.rdata), leaf(x, R.rcap))
            if y is not None:
                held.append(("the world", y, None))
        elif var is None and reuse is not kept0(R, W):
            H.und = "what the world keeps is not recognised: %s" % short(reuse, 60)
    if H.und:
        rep.und("one-owner", p, H.und)
        return
    if H.failed:
        return
    seen = {}
    for what, x, e in held:
        if x in seen:
            H.bad("one-owner", e, "the buffer is owned by %s and by %s" % (seen[x], what))
            return
        seen[x] = what
    if kind == "ret":
        lost = [x for x in H.live if x not in seen]
        if lost:
            H.bad("released-once", None, "a buffer is neither released nor kept by the builder or the world")
            return
    rep.ok("one-owner", p)
    # what is staged
    if kind == "ret" and built is not None and how != "drop":
        if how == "new":
            rep.check(yes(s, eq(leaf(built, R.len), I(0), True)), "staged", p, "a new builder starts with %s staged bytes" % short(leaf(built, R.len), 40),
                      undecided=leaf(built, R.len).op not in ("int", "fld", "lin"))
            ids = leaf(built, R.ids)
            rep.check(ids.op == "vnew" or yes(s, eq(vlen(ids), I(0), True)), "staged", p, "a new builder can start with ids staged by an earlier one",
                      undecided=ids.op not in ("fld", "vpush"))
        elif how[0] == "value" and v is built:
            staging(rep, H, R, p, b, built, len0)


def size_of_id(t):
    """The id whose recorded size a term is."""
    for f in ("size", "layout", "component_meta"):
        if t.op != "fld" or t.args[1] != f:
            return None
        t = t.args[0]
    while t.op in ("fld", "vfld", "at", "ref"):
        t = t.args[0]
    if t.op == "vget":
        i = t.args[1]
        if i.op == "fld" and i.args[0].op == "fld" and i.args[1] == "0" and i.args[0].args[1] == "1":
            return i.args[0].args[0]
    return None


def size_atom(t, d):
    """The id whose size a byte count is (None: another count)."""
    c, m = parts(t)
    if c == 0 and len(m) == 1 and list(m.values()) == [1]:
        return size_of_id(next(iter(m)))
    return None


def meta_sizes(s, idt):
    """Size terms of an id that the path knows something about."""
    for q in s.ints:
        for a in parts(q)[1]:
            if size_of_id(a) is idt:
                yield a


def staging(rep, H, R, p, b, built, len0):
    s = H.s
    ids0, ids1 = leaf(b, R.ids), leaf(built, R.ids)
    d = sub(leaf(built, R.len), len0)
    if ids1 is ids0:
        if d is I(0) and not H.wrote:
            rep.ok("staged", p)
        elif d is not I(0):
            (rep.bad if d.op == "int" or size_atom(d, None) is not None else rep.und)("staged", p, "%s bytes are counted as staged for no component" % short(d, 50))
        else:
            rep.und("staged", p, "bytes are written for no component")
        return
    if not (ids1.op == "vpush" and ids1.args[0] is ids0):
        bad = ids1.op == "vpush" and ids1.args[0].op == "vpush" or ids1.op in ("vinsert",)
        (rep.bad if bad else rep.und)("staged", p, "the ids staged become %s" % short(ids1, 60))
        return
    idt = ids1.args[1]
    n = size_atom(d, None)
    if d is I(0) or yes(s, eq(d, I(0), True)):
        if d is not I(0) and n is idt:
            rep.ok("staged", p)
            return
        # nothing staged: the component must have no data
        zero = any(yes(s, eq(a, I(0), True)) for a in meta_sizes(s, idt))
        if zero:
            rep.ok("staged", p)
        elif H.wrote:
            rep.bad("staged", p, "bytes are written but not counted as staged")
        else:
            rep.bad("staged", p, "a component that may expect data is staged without any")
        return
    if n is None:
        known = d.op == "int" or all(contains(a, idt) or a is len0 or a is leaf(b, R.cap) for a in parts(d)[1])
        (rep.bad if known else rep.und)("staged", p, "%s bytes are counted as staged for one component" % short(d, 60))
        return
    if n is not idt:
        rep.bad("staged", p, "the size of %s is used for the value of %s" % (short(n, 40), short(idt, 40)))
        return
    if len(H.wrote) != 1:
        if not H.wrote:
            rep.bad("staged", p, "no bytes are written for a staged component")
        else:
            rep.und("staged", p, "bytes are written in several pieces")
        return
    blk, off, cnt, e = H.wrote[0]
    if not same(s, off, len0):
        rep.bad("staged", wh(p, e), "the value is written at offset %s, the next free byte is at %s" % (short(off, 40), short(len0, 40)))
    elif not same(s, cnt, d):
        rep.bad("staged", wh(p, e), "%s bytes are written, %s are counted as staged" % (short(cnt, 50), short(d, 50)))
    elif not same(s, H.kept.get(blk, I(0)), add(len0, d)):
        rep.bad("staged", wh(p, e), "the bytes staged before are not carried over to the new buffer")
    else:
        rep.ok("staged", wh(p, e))


def outside(an, rep, R, rs):
    """Other code that touches the kept buffer."""
    seen = set()
    for p, how, r in rs:
        if r is not None:
            seen.add(p)
            seen |= set(r.cx.inlined)
    for key, f in an.prog.fns.items():
        if f.body is None or f.path in seen:
            continue
        txt = json.dumps(f.body)
        if '"%s"' % R.reuse not in txt:
            continue
        if is_adt(f.d.get("output") or {}, WT):
            r = an.root(f.path)
            for s, v in (r.rets() if r else ()):
                if v.op == "agg":
                    x = fld(v, R.reuse)
                    rep.check(s.variant(x) == "None", "one-owner", f.path, "a new world starts with a kept buffer", undecided=True)
            continue
        if f.path in builder_methods(an) or f.d.get("kind") == "Closure":
            continue
        rep.und("one-owner", f.path, "touches the kept buffer and is not analysed")


# ---------------------------------------------------------------- taking the staged values out again
@rule("C17")
def unstaging(an, rep):
    R, why = find_layout(an)
    if R is None:
        return
    r = an.root(BUILD_, facts=builder_facts)
    if r is None:
        rep.und("unstaged", BUILD_, "not analysed: %s" % an.errors.get(BUILD_))
        return
    cx = r.cx
    b = r.args[0]
    data, ids = leaf(b, R.data), leaf(b, R.ids)
    done = set()
    for s, v in r.rets():
        if tainted(cx, s.events):
            rep.und("unstaged", BUILD_, "an unknown function runs on this path")
            continue
        for e in s.events:
            if e[0] == "uv.push_raw":
                p0, off = base_off(e[2])
                if p0 is data:
                    rep.und("unstaged", wh(BUILD_, e), "a staged value is taken outside of a loop")
        for L in loops_in(cx, s.events):
            its = [(st, L.events(st)) for st, _ in L.iters]
            if not any(e[0] == "uv.push_raw" for _, ev in its for e in ev):
                continue
            if id(L) in done:
                continue
            done.add(id(L))
            walk(rep, cx, L, its, data, ids)


def base_off(p):
    off = I(0)
    while p.op == "padd":
        off = add(off, p.args[1])
        p = p.args[0]
    return p, off


def walk(rep, cx, L, its, data, ids):
    site = L.label
    ptrs = [(st, e) for st, ev in its for e in ev if e[0] == "uv.push_raw"]
    P = ptrs[0][1][2]
    lvs = {v: k for k, v in L.vals.items() if v.op == "lv"}

    def at(st, t):
        return subst(t, {v: cx.read(st, k[0], k[1]) for v, k in lvs.items()})
    p0, off0 = base_off(at(L.init, P))
    if p0 is not data:
        (rep.bad if p0.op in ("dangling", "ptrint") else rep.und)("unstaged", wh(BUILD_, ptrs[0][1]), "values are taken from %s instead of the builder's buffer" % short(p0, 50))
        return
    if off0 is not I(0):
        (rep.bad if off0.op == "int" or size_atom(off0, None) is not None else rep.und)("unstaged", wh(BUILD_, ptrs[0][1]), "the first value is taken from offset %s" % short(off0, 50))
        return
    for st, ev in its:
        ps = [e for e in ev if e[0] == "uv.push_raw"]
        if len(ps) > 1:
            rep.und("unstaged", site, "several values are taken in one round")
            return
        for e in ps:
            if e[2] is not P:
                b1, o1 = base_off(e[2])
                b2, o2 = base_off(P)
                if not (b1 is b2 and same(st, o1, o2)):
                    dd = sub(o1, o2) if b1 is b2 else None
                    (rep.bad if dd is not None else rep.und)("unstaged", wh(BUILD_, e), "values are taken from two different offsets in one round")
                    return
        q0, qo = base_off(P)
        n0, no = base_off(at(st, P))
        if q0 is not n0:
            rep.und("unstaged", site, "pointer not recognised: %s" % short(n0, 60))
            return
        step = sub(no, qo)
        # which staged id is this round about?
        k = None
        for pos, hv in L.vals.items():
            if hv.op == "K":
                k = hv
                fv = cx.read(st, pos[0], pos[1])
        if k is None:
            rep.und("unstaged", site, "the rounds are not counted")
            return
        idt = vget(ids, k, st)
        who = size_atom(step, None)
        e = ps[0] if ps else None
        if who is not None:
            if who is idt or st.decide(eq(who, idt)) is True:
                rep.ok("unstaged", wh(BUILD_, e))
            else:
                v = who
                while v.op in ("fld",):
                    v = v.args[0]
                known = v.op == "vget"
                (rep.bad if known else rep.und)("unstaged", wh(BUILD_, e) if e else site,
                                                "after the value of the %s staged id the pointer moves by the size of %s" % ("k-th", short(who, 50)))
        elif step is I(0) or yes(st, eq(step, I(0), True)):
            z = any(yes(st, eq(a, I(0), True)) for a in meta_sizes(st, idt))
            if z:
                rep.ok("unstaged", wh(BUILD_, e))
            else:
                rep.bad("unstaged", wh(BUILD_, e) if e else site, "the pointer does not move past a staged value")
        else:
            col = type_size(step)
            if col:
                rep.ok("unstaged", wh(BUILD_, e))
            else:
                known = step.op == "int" or all(contains(a, idt) for a in parts(step)[1])
                (rep.bad if known else rep.und)("unstaged", wh(BUILD_, e) if e else site, "after a value the pointer moves by %s" % short(step, 60))


def type_size(t):
    """Size recorded in the column a value goes to (the same as that of its id: C07)."""
    c, m = parts(t)
    if c or len(m) != 1 or list(m.values()) != [1]:
        return False
    a = next(iter(m))
    return a.op == "fld" and a.args[1] == "size" and "type_info" in show(a) and "component_storages" in show(a)
