"""Path-partitioned forward dataflow over inlined MIR.  Loops are summarised by havocking what an iteration can
change (with induction variables kept as linear functions of an iteration counter)."""
import json
from .terms import *
from .state import State


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


STD_ENUMS = {
    "std::option::Option": [("None", 0), ("Some", 1)],
    "std::result::Result": [("Ok", 0), ("Err", 1)],
    "std::ops::ControlFlow": [("Continue", 0), ("Break", 1)],
    "std::cmp::Ordering": [("Less", -1), ("Equal", 0), ("Greater", 1)],
    "std::collections::hash_map::Entry": [("Occupied", 0), ("Vacant", 1)],
    "std::sync::TryLockError": [("Poisoned", 0), ("WouldBlock", 1)],
    "std::borrow::Cow": [("Borrowed", 0), ("Owned", 1)],
}
ORD = "std::cmp::Ordering"


def ordv(n):
    return agg(ORD, {"Less": 0, "Equal": 1, "Greater": 2}[n], n, (), ())


# ---------------------------------------------------------------- types (JSON dicts)
def tsub(t, sub):
    if not sub:
        return t
    k = t.get("k")
    if k == "param":
        return sub.get(t["name"], t)
    if k == "cparam":
        return sub.get(t["name"], t)
    if k == "adt" or k == "fndef":
        if not t["args"]:
            return t
        return dict(t, args=[tsub(a, sub) for a in t["args"]])
    if k in ("slice", "ptr", "ref"):
        return dict(t, t=tsub(t["t"], sub))
    if k == "array":
        return dict(t, t=tsub(t["t"], sub), n=tsub(t["n"], sub))
    if k == "tuple":
        return dict(t, ts=[tsub(a, sub) for a in t["ts"]])
    return t


def tkey(t):
    k = t.get("k")
    if k in ("uint", "int"):
        return t["n"]
    if k == "adt":
        return t["path"] + ("<" + ",".join(tkey(a) for a in t["args"]) + ">" if t["args"] else "")
    if k in ("param", "cparam"):
        return t["name"]
    if k == "const":
        return str(t["v"])
    if k == "ref":
        return "&" + ("mut " if t["mut"] else "") + tkey(t["t"])
    if k == "ptr":
        return "*" + ("mut " if t["mut"] else "const ") + tkey(t["t"])
    if k == "slice":
        return "[" + tkey(t["t"]) + "]"
    if k == "array":
        return "[" + tkey(t["t"]) + ";" + tkey(t["n"]) + "]"
    if k == "tuple":
        return "(" + ",".join(tkey(a) for a in t["ts"]) + ")"
    if k == "closure":
        return "closure:" + t["key"]
    if k == "fndef":
        return "fn:" + t["key"]
    return t.get("s", k)


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64,
        "isize": 64, "u128": 128, "i128": 128}


def size_of(t):
    k = t.get("k")
    if k in ("uint", "int"):
        return I(BITS[t["n"]] // 8)
    if k == "bool":
        return I(1)
    if k in ("ptr", "ref") and t["t"].get("k") not in ("slice", "str", "dyn"):
        return I(8)
    if k == "adt" and t["path"] in ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::cell::UnsafeCell"):
        return size_of(t["args"][0])
    if k == "tuple" and not t["ts"]:
        return I(0)
    return T("sizeof", tkey(t))


def align_of(t):
    k = t.get("k")
    if k in ("uint", "int"):
        return I(BITS[t["n"]] // 8)
    if k == "bool":
        return I(1)
    if k == "adt" and t["path"] in ("std::mem::MaybeUninit", "std::mem::ManuallyDrop"):
        return align_of(t["args"][0])
    if k == "tuple" and not t["ts"]:
        return I(1)
    return T("alignof", tkey(t))


# ---------------------------------------------------------------- paths inside values
def pf(n):
    return T("pf", n)


LISTS = {"archetypes", "component_storages", "comp_ids", "entities", "ecs_id_meta", "generations", "locks"}


def pi(i):
    return T("pi", i)


def pv(n):
    return T("pv", n)


def push_path(path, e):
    if e.op == "pi" and path and path[-1].op == "pslice":
        return path[:-1] + (pi(add(path[-1].args[0], e.args[0])),)
    if e.op == "pslice" and path and path[-1].op == "pslice":
        lo = path[-1].args[0]
        return path[:-1] + (T("pslice", add(lo, e.args[0]), add(lo, e.args[1])),)
    return path + (e,)


def vlen(v):
    op = v.op
    if op == "agg" and v.args[0] == "array":
        return I(len(v.args) - 4)
    if op == "vnew":
        return I(0)
    if op == "vpush":
        return add(vlen(v.args[0]), I(1))
    if op in ("vset", "vsorted", "vsortby", "vperm"):
        return vlen(v.args[0])
    if op in ("vswaprm", "vrm", "vpop"):
        return sub(vlen(v.args[0]), I(1))
    if op == "vins":
        return add(vlen(v.args[0]), I(1))
    if op == "vcomp":
        return add(vlen(v.args[0]), T("K", v.args[1]))
    if op == "rep":
        return v.args[1]
    if op == "vresize":
        return v.args[1]
    if op == "slice":
        return sub(v.args[2], v.args[1])
    if op == "vcat":
        return add(vlen(v.args[0]), vlen(v.args[1]))
    if op == "with":
        return vlen(v.args[0])
    if op == "fld" and v.args[1] == "component_storages":
        return vlen(fld(v.args[0], "comp_ids"))
    return T("vlen", v)


def vget(v, i, st=None):
    while True:
        op = v.op
        if op == "agg" and v.args[0] == "array" and i.op == "int" and i.args[0] < len(v.args) - 4:
            return v.args[4 + i.args[0]]
        if op == "rep":
            return v.args[0]
        if op == "slice":
            v, i = v.args[0], add(v.args[1], i)
            continue
        if op in ("vpush", "vset", "vswaprm", "vrm", "vpop", "vresize", "vins"):
            b = v.args[0]
            dec = (lambda c: st.decide(c)) if st is not None else (
                lambda c: True if c is TRUE else False if c is FALSE else None)
            if op == "vpush":
                r = dec(eq(i, vlen(b), True))
                if r is True:
                    return v.args[1]
                if r is False or dec(lt(i, vlen(b))) is True:
                    v = b
                    continue
            elif op == "vset":
                r = dec(eq(i, v.args[1], True))
                if r is True:
                    return v.args[2]
                if r is False:
                    v = b
                    continue
            elif op == "vpop":
                v = b
                continue
            elif op == "vswaprm":
                last = sub(vlen(b), I(1))
                r = dec(eq(i, v.args[1], True))
                if r is True:
                    v, i = b, last
                    continue
                if r is False:
                    v = b
                    continue
            elif op == "vrm":
                r = dec(lt(i, v.args[1]))
                if r is True:
                    v = b
                    continue
                if r is False:
                    v, i = b, add(i, I(1))
                    continue
            elif op == "vresize":
                r = dec(lt(i, vlen(b)))
                if r is True:
                    v = b
                    continue
                if r is False:
                    return v.args[2]
        return T("vget", v, i)


NOSTATE = State()


def pm(k):
    return T("pm", k)


def mhas(m, k, st):
    while True:
        if m.op == "mnew":
            return FALSE
        if m.op == "mins":
            d = (st or NOSTATE).decide(eq(m.args[1], k))
            if d is True:
                return TRUE
            if d is False:
                m = m.args[0]
                continue
        if m.op == "mrem":
            d = (st or NOSTATE).decide(eq(m.args[1], k))
            if d is True:
                return FALSE
            if d is False:
                m = m.args[0]
                continue
        return T("has", m, k)


def mget(m, k, st):
    while m.op in ("mins", "mrem"):
        d = (st or NOSTATE).decide(eq(m.args[1], k))
        if d is True and m.op == "mins":
            return m.args[2]
        if d is False:
            m = m.args[0]
            continue
        break
    return T("mget", m, k)


def slice_of(v, lo, hi):
    if lo is I(0) and hi is vlen(v):
        return v
    if v.op == "agg" and v.args[0] == "array" and lo.op == "int" and hi.op == "int":
        return agg("array", 0, "array", tuple(str(n) for n in range(hi.args[0] - lo.args[0])), v.args[4 + lo.args[0]:4 + hi.args[0]])
    if v.op == "slice":
        return slice_of(v.args[0], add(v.args[1], lo), add(v.args[1], hi))
    return T("slice", v, lo, hi)


def read_path(val, path, st=None):
    i = 0
    n = len(path)
    while i < n:
        e = path[i]
        if e.op == "pf":
            val = fld(val, e.args[0])
        elif e.op == "pv":
            if i + 1 < n and path[i + 1].op == "pf":
                val = vfld(val, e.args[0], path[i + 1].args[0])
                i += 1
        elif e.op == "pi":
            val = vget(val, e.args[0], st)
        elif e.op == "pslice":
            val = slice_of(val, e.args[0], e.args[1])
        elif e.op == "pm":
            val = mget(val, e.args[0], st)
        i += 1
    return val


def write_path(val, path, new, st=None):
    if not path:
        return new
    e = path[0]
    if e.op == "pf":
        return withf(val, e.args[0], write_path(fld(val, e.args[0]), path[1:], new, st))
    if e.op == "pv":
        if len(path) > 1 and path[1].op == "pf":
            f = path[1].args[0]
            return withv(val, e.args[0], f, write_path(vfld(val, e.args[0], f), path[2:], new, st))
        return new if len(path) == 1 else val
    if e.op == "pi":
        i = e.args[0]
        old = vget(val, i, st)
        nv = write_path(old, path[1:], new, st)
        if nv is old:
            return val
        if val.op == "agg" and val.args[0] == "array" and i.op == "int" and i.args[0] < len(val.args) - 4:
            k = 4 + i.args[0]
            return T("agg", *(val.args[:k] + (nv,) + val.args[k + 1:]))
        if val.op == "vset" and val.args[1] is i:
            val = val.args[0]
        return T("vset", val, i, nv)
    if e.op == "pm":
        old = mget(val, e.args[0], st)
        nv = write_path(old, path[1:], new, st)
        return val if nv is old else T("mins", val, e.args[0], nv)
    if e.op == "pslice":
        lo, hi = e.args
        if len(path) == 1:
            if lo is I(0) and hi is vlen(val):
                return new
            return T("vslice_set", val, lo, hi, new)
        return write_path(val, path[1:], new, st)
    raise Unsupported("write " + repr(path))


def diff(old, new, path=(), st=None):
    """Positions at which two values differ."""
    if old is new:
        return []
    if old.op == "agg" and new.op == "agg" and old.args[:4] == new.args[:4]:
        out = []
        p, vname, fs = old.args[0], old.args[2], old.args[3]
        enum = p in STD_ENUMS or (vname not in ("", "array") and vname != p.split("::")[-1])
        for n, f in enumerate(fs):
            if p == "array":
                q = path + (pi(I(n)),)
            elif enum:
                q = path + (pv(vname), pf(f))
            else:
                q = path + (pf(f),)
            out += diff(old.args[4 + n], new.args[4 + n], q, st)
        return out
    if old.op == "with" or new.op == "with":
        bo = old.args[0] if old.op == "with" else old
        bn = new.args[0] if new.op == "with" else new
        if bo is bn:
            ks = set()
            for x in (old, new):
                if x.op == "with":
                    ks |= {k for k, _ in x.args[1]}
            out = []
            for k in sorted(ks):
                q = path + ((pv(k.split(".")[0]), pf(k.split(".")[1])) if "." in k else (pf(k),))
                out += diff(fld(old, k), fld(new, k), q, st)
            return out
    if new.op == old.op == "vset" and new.args[0] is old.args[0] and new.args[1] is old.args[1]:
        return diff(old.args[2], new.args[2], path + (pi(new.args[1]),), st)
    if new.op == "vset" and new.args[0] is old and all(x.op not in ("K", "lv") for x in subterms(new.args[1])):
        return diff(vget(old, new.args[1], st), new.args[2], path + (pi(new.args[1]),), st)
    return [path]


def cmp_int(a, b):
    """cmp terms over integers are built by the number models; over program types they carry the marker $ord."""
    return not (a.op == "ord$" or b.op == "ord$")


TRIVIAL = ("uint", "int", "bool", "fndef", "closure", "ref", "ptr", "fnptr", "char", "never", "str")


def trivial_drop(t):
    k = t.get("k")
    if k in TRIVIAL:
        return True
    if k == "tuple":
        return all(trivial_drop(x) for x in t["ts"])
    if k in ("array", "slice"):
        return trivial_drop(t["t"])
    if k == "adt" and t["path"] in ("std::option::Option", "std::result::Result", "std::slice::Iter", "std::slice::IterMut",
                                    "std::iter::Map", "std::iter::Zip", "std::iter::Enumerate", "std::iter::Filter"):
        return all(trivial_drop(x) for x in t["args"])
    return False


class Loop:
    """What the analysis found out about one loop."""

    def __init__(self, lid, label, fn):
        self.id = lid
        self.label = label
        self.fn = fn
        self.init = None
        self.vals = {}      # position -> header term
        self.iters = []     # back-edge states (payload of the iteration)
        self.exits = []     # exit states
        self.head = None    # state at the loop header (generic iteration)

    def events(self, s):
        n = len(self.head.events)
        return s.events[n:]


class Fn:
    __slots__ = ("d", "key", "path", "body", "loops", "preds")

    def __init__(self, d):
        self.d = d
        self.key = d["key"]
        self.path = d["path"]
        self.body = d["body"]
        self.loops = None


class Program:
    def __init__(self, dumps):
        self.fns = {}
        self.bypath = {}
        self.adts = {}
        self.impls = []
        self.ext = {}
        for d in dumps:
            for f in d["fns"]:
                x = Fn(f)
                self.fns[x.key] = x
                self.bypath.setdefault(x.path, []).append(x)
            for f in d["ext"]:
                if f["key"] not in self.ext:
                    self.ext[f["key"]] = Fn(f)
            self.adts.update(d["adts"])
            self.impls += d["impls"]

    def get(self, path):
        l = self.bypath.get(path)
        return l[0] if l else None

    def enum(self, path):
        if path in STD_ENUMS:
            return STD_ENUMS[path]
        a = self.adts.get(path)
        if a and a["enum"]:
            return [(v["name"], i) for i, v in enumerate(a["variants"])]
        return None


def find_loops(body):
    """header -> set of blocks (natural loops, back edges by dominance)."""
    blocks = body["blocks"]
    succ = []
    for b in blocks:
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            s = [t[2]]
        elif k == "call":
            s = [t[4]] if t[4] is not None else []
        elif k == "assert":
            s = [t[4]]
        else:
            s = []
        succ.append(s)
    n = len(blocks)
    # reverse post order
    seen, order = set(), []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for x in succ[b]:
            preds[x].append(b)
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for h in succ[b]:
            if h in idx and dom(h, b):
                body_ = loops.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body_:
                        body_.add(x)
                        work.extend(preds[x])
    return loops


class Frame:
    __slots__ = ("uid", "fn", "sub", "depth", "names")


# these end the program
NO_UNWIND = ("std::alloc::handle_alloc_error", "std::process::abort", "std::intrinsics::abort")


class Ctx:
    MAXSTATES = 6000

    def __init__(self, prog, models, boundary=None):
        self.prog = prog
        self.models = models
        self.boundary = boundary or {}
        self.hooks = {}
        self.lvs = {}
        self.loops = {}
        self.nuid = 0
        self.nloop = 0
        self.nfresh = 0
        self.steps = 0
        self.unknown = {}
        self.inlined = set()
        self.merge_fns = set()
        self.stack = []
        self.unwinding = []
        self.curspan = ""

    # ------------------------------------------------------------ misc
    def fresh(self, name):
        self.nfresh += 1
        return T("sym", "%s'%d" % (name, self.nfresh))

    def uid(self):
        self.nuid += 1
        return self.nuid

    def read(self, st, root, path=()):
        v = st.store.get(root)
        if v is None:
            v = T("at", root.args[0]) if root.op == "obj" else UNDEF
        return read_path(v, path, st) if path else v

    def write(self, st, root, path, val, quiet=False):
        if root.op == "obj" and not quiet:
            st.ev("w", root, path, val, self.curspan, self.stack[-1] if self.stack else "")
        old = st.store.get(root)
        if old is None:
            old = T("at", root.args[0]) if root.op == "obj" else UNDEF
        st.store[root] = write_path(old, path, val, st) if path else val

    def deref_ref(self, v):
        """(root, path) a reference or pointer value designates."""
        if v.op == "ref":
            return v.args[0], v.args[1:]
        return T("obj", v), ()

    def load(self, st, v):
        r, p = self.deref_ref(v)
        return self.read(st, r, p)

    def load_all(self, st, v):
        n = 0
        while v.op == "ref" and n < 6:
            v = self.load(st, v)
            n += 1
        return v

    def store(self, st, v, val):
        r, p = self.deref_ref(v)
        self.write(st, r, p, val)

    def ref(self, root, path=()):
        return T("ref", root, *path)

    def sub_ref(self, v, *elems):
        r, p = self.deref_ref(v)
        for e in elems:
            p = push_path(p, e)
        return T("ref", r, *p)

    # ------------------------------------------------------------ places and operands
    def place(self, fr, st, p):
        root = T("loc", fr.uid, p["l"])
        path = ()
        for e in p["p"]:
            k = e[0]
            if k == "deref":
                v = self.read(st, root, path)
                root, path = self.deref_ref(v)
            elif k == "field":
                if e[2] in TRANSPARENT_FIELDS and self._transparent(st, root, path, e):
                    continue
                path = push_path(path, pf(e[2]))
            elif k == "downcast":
                path = push_path(path, pv(e[2]))
            elif k == "index":
                path = push_path(path, pi(self.read(st, T("loc", fr.uid, e[1]))))
            elif k == "cindex":
                if e[3]:
                    ln = vlen(self.read(st, root, path))
                    path = push_path(path, pi(sub(ln, I(e[1]))))
                else:
                    path = push_path(path, pi(I(e[1])))
            elif k == "subslice":
                ln = vlen(self.read(st, root, path))
                hi = sub(ln, I(e[2])) if e[3] else I(e[2])
                path = push_path(path, T("pslice", I(e[1]), hi))
            else:
                raise Unsupported("projection " + k)
        return root, path

    def _transparent(self, st, root, path, e):
        return False

    def const(self, fr, st, c):
        t = tsub(c["t"], fr.sub)
        if "fn" in c:
            f = c["fn"]
            return T("fn", f["key"], json.dumps(dict(f, args=[tsub(a, fr.sub) for a in f["args"]],
                                                     rargs=[tsub(a, fr.sub) for a in f.get("rargs", [])],
                                                     self=tsub(f["self"], fr.sub) if "self" in f else None), sort_keys=True))
        if "v" in c and "promoted" not in c:
            if t["k"] == "bool":
                return B(c["v"] != 0)
            return I(c["v"])
        if "tyconst" in c:
            tc = tsub(c["tyconst"], fr.sub)
            if tc["k"] == "const":
                return I(tc["v"])
            return T("cparam", tc["name"])
        if "promoted" in c:
            f = self.prog.fns.get(c["itemkey"]) or self.prog.ext.get(c["itemkey"])
            if f is not None and "promoted" in f.d and c["promoted"] < len(f.d["promoted"]):
                return self.const_body(f, f.d["promoted"][c["promoted"]], fr.sub, st, (f.key, c["promoted"]))
        elif "itemkey" in c:
            f = self.prog.fns.get(c["itemkey"])
            if f is not None:
                return self.const_body(f, f.body, fr.sub, st, (f.key, None))
        if "fnptr" in c:
            return T("fn", c["fnptr"], "")
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        if t["k"] == "closure":
            return T("closure", t["key"], self.submap_key(fr.sub))
        if t["k"] == "adt" and c.get("zst"):
            return agg(t["path"], 0, t["path"].split("::")[-1], (), ())
        if t["k"] == "ref" and t["t"]["k"] == "slice" and c.get("s", "").endswith("&[]"):
            u = T("loc", "empty", 0)
            st.store[u] = T("vnew")
            return T("ref", u)
        s = c.get("s", "?")
        if t["k"] == "adt" and t["path"] == "std::option::Option" and (
                "transmute(0x0000000000000000)" in s or s.endswith("::None")):
            return NONE
        return T("const", s, tkey(t))

    def const_body(self, f, body, sub, st, key):
        sf = Fn({"key": "%s#%s" % key, "path": f.path, "body": body})
        res = self.exec_body(sf, [], sub, st, keep=True)
        rets = [r for r in res if r[0] == "ret"]
        if len(rets) != 1:
            raise Unsupported("const body")
        st.store.update(rets[0][1].store)
        return rets[0][2]

    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            r, p = self.place(fr, st, o[1])
            return self.read(st, r, p)
        if o[0] == "const":
            return self.const(fr, st, o[1])
        return FALSE

    def submap_key(self, sub):
        return json.dumps(sub, sort_keys=True)

    # ------------------------------------------------------------ rvalues
    def binop(self, st, op, a, b, ty, span):
        k = ty.get("k")
        if op.endswith("WithOverflow"):
            return tup(self.binop(st, op[:-12], a, b, ty, span), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Eq", "Ne"):
            r = self.which(a, b) or self.which(b, a) or eq(a, b, k in ("uint", "int"))
            return r if op == "Eq" else neg(r)
        if k == "bool":
            if op == "BitAnd":
                return conj(a, b)
            if op == "BitOr":
                return neg(conj(neg(a), neg(b)))
            if op == "BitXor":
                return neg(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            if k == "uint" and st.decide(le(b, a)) is not True:
                st.ev("sub", a, b, span)
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        if op == "Offset":
            return self.padd(a, mul(b, size_of(ty["t"])))
        if op == "Cmp":
            return T("cmp", a, b)
        n = {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor", "Shl": "shl", "Shr": "shr"}.get(op)
        if n is None:
            raise Unsupported("binop " + op)
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            if n == "shl":
                return I((x << y) & ((1 << BITS.get(ty.get("n"), 64)) - 1))
            return I({"band": x & y, "bor": x | y, "bxor": x ^ y, "shr": x >> y if y < 200 else 0}[n])
        if n == "band" and a.op == "int":
            a, b = b, a
        if ty.get("n") == "usize" and b.op == "int":
            # positions: x >> 6 and x & 63 are written like x / 64 and x % 64
            if n == "shr" and b.args[0] in (3, 4, 5, 6):
                return div(a, I(1 << b.args[0]))
            if n == "shl" and 1 <= b.args[0] <= 6:
                return mul(a, I(1 << b.args[0]))
            if n == "band" and b.args[0] in (7, 15, 31, 63):
                return rem(a, I(b.args[0] + 1))
        if n in ("band", "bor", "bxor") and a.id > b.id:
            a, b = b, a
        return T(n, a, b)

    def padd(self, p, off):
        if off is I(0):
            return p
        if p.op == "padd":
            o = add(p.args[1], off)
            return p.args[0] if o is I(0) else T("padd", p.args[0], o)
        return T("padd", p, off)

    def rvalue(self, fr, st, r, span):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref" or k == "rawptr":
            root, path = self.place(fr, st, r[2])
            if root.op == "obj" and not path:
                return root.args[0]
            return T("ref", root, *path)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(st, r[1], a, b, tsub(r[4], fr.sub), span)
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Not":
                t = r[2]
                ty = t[1]["t"] if t[0] != "rtcheck" else {"k": "bool"}
                return neg(a) if ty["k"] == "bool" else (I(~a.args[0] & (2 ** 64 - 1)) if a.op == "int" else T("bnot", a))
            if r[1] == "Neg":
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                return vlen(self.load(st, a))
            raise Unsupported("unop")
        if k == "cast":
            a = self.operand(fr, st, r[2])
            return self.cast(fr, st, r[1], a, tsub(r[3], fr.sub), tsub(r[4], fr.sub), span)
        if k == "agg":
            kk = r[1]
            vals = [self.operand(fr, st, o) for o in r[2]]
            if kk["k"] == "tuple":
                return tup(*vals)
            if kk["k"] == "array":
                return agg("array", 0, "array", tuple(str(i) for i in range(len(vals))), vals)
            if kk["k"] == "adt":
                if kk["path"] in TRANSPARENT and len(vals) == 1:
                    return vals[0]
                fields = kk["fields"]
                if kk.get("union") is not None:
                    fields = [fields[kk["union"]]]
                return agg(kk["path"], kk["v"], kk["vname"], fields, vals)
            if kk["k"] == "closure":
                return agg("$closure", 0, T("closure", kk["key"], self.submap_key(fr.sub)),
                           tuple(str(i) for i in range(len(vals))), vals)
            if kk["k"] == "rawptr":
                return vals[0]
            raise Unsupported("aggregate")
        if k == "discr":
            root, path = self.place(fr, st, r[1])
            v = self.read(st, root, path)
            ty = tsub(r[1]["t"], fr.sub)
            return self.discr(v, ty["path"] if ty.get("k") == "adt" else "?")
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = tsub(r[2], fr.sub)
            if n["k"] == "const" and n["v"] <= 16:
                return agg("array", 0, "array", tuple(str(i) for i in range(n["v"])), [v] * n["v"])
            return T("rep", v, I(n["v"]) if n["k"] == "const" else T("cparam", n["name"]))
        raise Unsupported("rvalue %s" % r[:2])

    def which(self, d, n):
        """A discriminant compared with a number: the variant test it stands for."""
        if d.op != "discr" or n.op != "int" or d.args[0].op == "cmp":
            return None
        en = self.prog.enum(d.args[1])
        if not en or len(en) != 2 or d.args[1] not in ("std::option::Option", "std::result::Result"):
            return None
        for name, k in en:
            if k == n.args[0]:
                return T("is", d.args[0], name)
        return None

    def discr(self, v, path):
        while v.op == "with":
            v = v.args[0]
        if v.op == "agg":
            en = self.prog.enum(path)
            if en:
                for n, d in en:
                    if n == v.args[2]:
                        return I(d)
            return I(v.args[1])
        return T("discr", v, path)

    def cast(self, fr, st, kind, a, to, frm, span):
        if kind == "IntToInt":
            if frm["k"] == "bool":
                return I(1) if a is TRUE else I(0) if a is FALSE else T("b2i", a)
            if to["k"] not in ("uint", "int") or frm["k"] not in ("uint", "int"):
                return a
            bt, bf = BITS[to["n"]], BITS[frm["n"]]
            if a.op == "int":
                return a if 0 <= a.args[0] < 2 ** bt or to["k"] == "int" else I(a.args[0] % 2 ** bt)
            if bt < bf:
                if st.decide(le(a, I(2 ** bt - 1))) is True:
                    return a
                st.ev("narrow", a, bt, span)
                if bt < 32 or any(x.op in ("shl", "bor", "bxor", "from_bytes", "shr") for x in subterms(a)):
                    return T("trunc", a, bt)
            return a
        if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
            return a
        if kind.startswith("PointerWithExposed"):
            return T("ptrint", a)
        if kind.startswith("PointerExpose"):
            return T("addr", a)
        return a

    # ------------------------------------------------------------ statements and blocks
    def stmt(self, fr, st, s):
        k = s[0]
        if k == "assign":
            self.curspan = s[3]
            v = self.rvalue(fr, st, s[2], s[3])
            root, path = self.place(fr, st, s[1])
            if path and root.op != "loc":
                self.on_write(st, root, path, v, s[3])
            self.write(st, root, path, v)
        elif k == "dead":
            pass
        elif k == "setdiscr":
            raise Unsupported("setdiscr")
        elif k == "cno":
            st.ev("copy", "copy_nonoverlapping", self.operand(fr, st, s[1]), self.operand(fr, st, s[2]),
                  mul(self.operand(fr, st, s[3]), I(1)), s[4])

    def on_write(self, st, root, path, v, span):
        pass

    def branch(self, st, cond):
        """[(bool, state)] for the feasible outcomes of a boolean term."""
        d = st.decide(cond)
        if d is not None:
            return [(d, st)]
        out = []
        a = st.assume(cond, True)
        if a is not None:
            out.append((True, a))
        b = st.assume(cond, False)
        if b is not None:
            out.append((False, b))
        return out

    def switch(self, st, v, cases, default, ty):
        """[(target, state)]"""
        if ty["k"] == "bool":
            out = []
            for b, s in self.branch(st, v):
                tgt = default
                for c, t in cases:
                    if (c != 0) == b:
                        tgt = t
                out.append((tgt, s))
            return out
        if v.op == "discr":
            x, path = v.args
            en = self.prog.enum(path)
            if en is None:
                raise Unsupported("enum " + path)
            out = []
            rest = list(en)
            if x.op == "cmp":
                a, b = x.args
                for n, cond in (("Less", lt(a, b)), ("Equal", eq(a, b, True)),
                                ("Greater", lt(b, a))):
                    if not cmp_int(a, b):
                        s = st.setvar(x, n)
                        if s is not None and n == "Equal":
                            s = s.assume(eq(a, b))
                        elif s is not None:
                            s = s.assume(eq(a, b), False)
                    else:
                        s = st.assume(cond)
                        if s is not None:
                            s = s.setvar(x, n)
                    if s is None:
                        continue
                    d = dict(en)[n]
                    tgt = default
                    for c, t in cases:
                        if d == c or d % 256 == c or d % (1 << 64) == c:
                            tgt = t
                    out.append((tgt, s))
                return out
            for c, t in cases:
                for n, d in en:
                    if d == c or d % 256 == c or d % (1 << 64) == c:
                        s = st.setvar(x, n)
                        if s is not None:
                            out.append((t, s))
                        rest.remove((n, d))
            if len(rest) == 1:
                s = st.setvar(x, rest[0][0])
                if s is not None:
                    out.append((default, s))
            elif rest:
                s = st
                for n, d in en:
                    if (n, d) not in rest and s is not None:
                        s = s.setnvar(x, n)
                cur = s and s.variant(x)
                if s is not None and (cur is None or cur in [r[0] for r in rest]):
                    out.append((default, s))
            return out
        if v.op == "cmp":
            a, b = v.args
            conds = {255: lt(a, b), -1: lt(a, b), 0: eq(a, b), 1: lt(b, a)}
            out = []
            cur = st
            for c, t in cases:
                if cur is None:
                    break
                cc = conds[c if c < 256 else -1]
                x = cur.assume(cc)
                if x is not None:
                    out.append((t, x))
                cur = cur.assume(cc, False)
            if cur is not None:
                out.append((default, cur))
            return out
        if v.op == "b2i":
            out = []
            for b, s in self.branch(st, v.args[0]):
                tgt = default
                for c, t in cases:
                    if c == (1 if b else 0):
                        tgt = t
                out.append((tgt, s))
            return out
        out = []
        cur = st
        for c, t in cases:
            if cur is None:
                break
            cond = eq(v, I(c), True)
            x = cur.assume(cond)
            if x is not None:
                out.append((t, x))
            cur = cur.assume(cond, False)
        if cur is not None:
            out.append((default, cur))
        return out

    def block(self, fr, bb, st):
        """Run one block: list of ('go', st, bb) / ('ret', st, None) / ('panic', st, info)."""
        self.steps += 1
        if self.steps > 400000:
            raise Budget("steps")
        b = fr.fn.body["blocks"][bb]
        st = st.copy()
        for s in b["s"]:
            self.stmt(fr, st, s)
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [("go", st, t[1])]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            return [("go", s, x) for x, s in self.switch(st, v, t[2], t[3], t[5])]
        if k == "return":
            return [("ret", st, None)]
        if k == "drop":
            return self.drop(fr, st, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            out = []
            for v, s in self.branch(st, c):
                if v == t[2]:
                    out.append(("go", s, t[4]))
                else:
                    out.append(("panic", s, (t[3][0], t[-1], fr.fn.path)))
            return out
        if k == "call":
            return self.call(fr, st, t)
        if k == "resume" and self.unwinding:
            return [("panic", st, self.unwinding[-1])]
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def drop(self, fr, st, t):
        ty = tsub(t[1]["t"], fr.sub)
        root, path = self.place(fr, st, t[1])
        v = self.read(st, root, path)
        if not trivial_drop(ty):
            st.ev("drop", tkey(ty), v, t[-1], fr.fn.path, T("ref", root, *path))
        if ty.get("k") == "adt":
            h = self.models.get("drop:" + ty["path"])
            if h:
                out = []
                for kind, s, r in h(self, st, [T("ref", root, *path)], None):
                    out.append(("go", s, t[2]) if kind == "ret" else (kind, s, r))
                return out
        return [("go", st, t[2])]

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t):
        f = self.operand(fr, st, t[1])
        args = [self.operand(fr, st, a) for a in t[2]]
        span = t[6]
        self.curspan = span
        if t[4] is None:
            n = json.loads(f.args[1]).get("path", "?") if f.op == "fn" and f.args[1] else "?"
            return [("panic", st, (n, span, fr.fn.path))]
        res = self.apply(fr, st, f, args, span, t)
        out = []
        for kind, s, v in res:
            if kind == "ret":
                if t[4] is None:
                    continue
                s = s.copy()
                root, path = self.place(fr, s, t[3])
                self.write(s, root, path, v)
                out.append(("go", s, t[4]))
            else:
                out.append((kind, s, v))
        return out

    def apply(self, fr, st, f, args, span, t=None):
        """Call a function value with the argument values."""
        if f.op == "fn":
            info = json.loads(f.args[1]) if f.args[1] else {"key": f.args[0], "path": f.args[0], "args": [], "name": ""}
            return self.call_fn(fr, st, info, args, span)
        if f.op == "agg" and f.args[0] == "$closure" or f.op == "closure":
            return self.call_closure(st, f, args, span)
        if f.op == "ref":
            return self.apply(fr, st, self.load(st, f), args, span, t)
        # opaque function pointer
        st = st.copy()
        r = T("apply", f, *args)
        st.ev("callptr", f, tuple(args), span, fr.fn.path if fr else "", dict(st.store))
        return [("ret", st, r)]

    def call_closure(self, st, f, args, span, selfref=None):
        c = f.args[2] if f.op == "agg" else f
        key, sub = c.args[0], json.loads(c.args[1])
        fn = self.prog.fns.get(key) or self.prog.ext.get(key)
        if fn is None:
            self.unknown[key] = self.unknown.get(key, 0) + 1
            return [("ret", st, self.fresh("closure"))]
        l1 = fn.body["locals"][1]
        u = None
        if l1["k"] == "ref":
            if selfref is None:
                u = T("loc", "clo%d" % self.uid(), 0)
                st = st.copy()
                st.store[u] = f
                selfref = T("ref", u)
            a0 = selfref
        else:
            a0 = f
        r = self.exec_body(fn, [a0] + list(args), sub, st)
        return r

    def call_fn(self, fr, st, info, args, span):
        path = info.get("rpath") or info["path"]
        key = info.get("rkey") or info["key"]
        name = info.get("name", "")
        call = {"path": path, "key": key, "info": info, "span": span, "fr": fr,
                "targs": info.get("rargs") or info.get("args") or [], "args0": info.get("args") or []}
        # calls through Fn traits
        if info["path"] in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            f = args[0]
            a = args[1]
            av = list(a.args[4:]) if a.op == "agg" and a.args[0] == "tuple" else [a]
            ff = f
            sr = None
            n = 0
            while ff.op == "ref" and n < 4:
                sr = ff
                ff = self.load(st, ff)
                n += 1
            if ff.op == "agg" and ff.args[0] == "$closure" or ff.op == "closure":
                return self.call_closure(st, ff, av, span, sr)
            return self.apply(fr, st, ff, av, span)
        for p in (path, info["path"]):
            h = self.boundary.get(p)
            if h is not None:
                return h(self, st.copy(), args, call)
        for p in (path, info["path"]):
            h = self.models.get(p)
            if h is not None:
                r = h(self, st.copy(), args, call)
                if r is not None:
                    return r
        fn = self.prog.fns.get(key)
        if fn is None:
            c = self.ctor(path, args)
            if c is not None:
                return [("ret", st, c)]
        if fn is None:
            # a trait method on a type the program implements it for
            if "trait" in info and info.get("self"):
                fn = self.find_impl(info["trait"], name, info["self"])
        if fn is None:
            fn = self.prog.ext.get(key)
        if fn is not None and len(self.stack) < 40 and self.stack.count(fn.key) < 2:
            names = fn.d.get("generics", [])
            targs = call["targs"]
            sub = {n: a for n, a in zip(names, targs)} if len(names) == len(targs) else {}
            self.inlined.add(fn.path)
            return self.exec_body(fn, args, sub, st)
        if info.get("trait", "").startswith("std::iter::") and name != "next":
            # a provided method of the standard library without a model
            return self.opaque(st, path, args, call)
        if "trait" in info and info.get("self"):
            st = st.copy()
            r = T("tcall", info["path"], tkey(info["self"]), *args)
            st.ev("tcall", info["path"], tkey(info["self"]), tuple(args), span, r)
            base = info["self"]
            while base.get("k") == "ref":
                base = base["t"]
            if info["path"].startswith("std::") and base.get("k") in ("uint", "int", "bool", "adt", "array", "slice", "tuple", "str", "char", "float") and \
                    not info["path"].startswith(("std::iter::", "std::borrow::")):
                # a method of the standard library on a known type, without a model
                self.unknown[path] = self.unknown.get(path, 0) + 1
                st.ev("unknown", path, tuple(args), span)
            if info["path"].endswith("::QueryParam::offset_ptr") and len(args) == 2:
                # by the contract checked for every implementation: the pointer is moved by that many values of the parameter's type
                self.store(st, args[0], T("poff", tkey(info["self"]), self.load(st, args[0]), args[1]))
            elif not info["path"].startswith("arche_tape::static_query::Query"):
                for a in args:
                    if a.op == "ref":
                        self.store(st, a, self.fresh("unk"))
            return [("ret", st, r)]
        return self.opaque(st, path, args, call)

    def ctor(self, path, args):
        """Tuple struct or tuple variant used as a function."""
        a = self.prog.adts.get(path)
        fs = tuple(str(i) for i in range(len(args)))
        if a is not None and not a["enum"]:
            return agg(path, 0, path.split("::")[-1], fs, args)
        if "::" in path:
            ep, vn = path.rsplit("::", 1)
            en = self.prog.enum(ep)
            if en:
                for i, (n, d) in enumerate(en):
                    if n == vn:
                        return agg(ep, i, vn, fs, args)
        return None

    def opaque(self, st, path, args, call):
        """Unknown function: result unknown, everything reachable through the arguments may change."""
        self.unknown[path] = self.unknown.get(path, 0) + 1
        st = st.copy()
        st.ev("unknown", path, tuple(args), call["span"])
        for a in args:
            if a.op == "ref":
                self.store(st, a, self.fresh("unk"))
        return [("ret", st, T("call", path, self.fresh("u"), *args))]

    def find_impl(self, trait, name, ty):
        k = ty.get("k")
        for f in self.prog.fns.values():
            d = f.d
            if d.get("trait") == trait and d.get("name") == name:
                s = d["selfty"]
                if s["k"] == k and (k != "adt" or s["path"] == ty["path"]):
                    if k == "adt" or tkey(s) == tkey(ty) or k in ("ref",):
                        if k == "ref" and s["mut"] != ty["mut"]:
                            continue
                        return f
        return None

    # ------------------------------------------------------------ bodies
    def exec_body(self, fn, args, sub, st, keep=False):
        fr = Frame()
        fr.uid = self.uid()
        fr.fn = fn
        fr.sub = sub
        if fn.loops is None:
            fn.loops = find_loops(fn.body)
        st = st.copy()
        body = fn.body
        n = body["argc"]
        if len(args) != n and n >= 1 and len(args) > n:
            args = list(args[:n - 1]) + [tup(*args[n - 1:])]
        elif len(args) < n and args and args[-1].op == "agg" and args[-1].args[0] == "tuple":
            args = list(args[:-1]) + list(args[-1].args[4:])
        for i in range(n):
            st.store[T("loc", fr.uid, i + 1)] = args[i] if i < len(args) else UNDEF
        self.stack.append(fn.key)
        try:
            res = self.run(fr, 0, st)
        finally:
            self.stack.pop()
        out = []
        for kind, s, v in res:
            if kind == "ret":
                v = s.store.get(T("loc", fr.uid, 0), UNIT)
                if v is UNDEF:
                    v = UNIT
            s = s.copy()
            if not keep:
                for r in [r for r in s.store if r.op == "loc" and r.args[0] == fr.uid]:
                    del s.store[r]
            out.append((kind, s, v))
        if len(out) > self.MAXSTATES:
            raise Budget("states")
        return out

    def unwind(self, fr, bb, st, info):
        """What the frame destroys while a panic leaves it (only for roots that ask for it)."""
        b = fr.fn.body["blocks"][bb]
        t = b["t"]
        u = t[{"drop": 3, "call": 5, "assert": 5}[t[0]]] if t[0] in ("drop", "call", "assert") else None
        if u is None or b.get("cleanup") or info[0] in NO_UNWIND:
            return [("panic", st, info)]
        st = st.copy()
        st.ev("unwind", fr.fn.path)
        self.unwinding.append(info)
        try:
            return [x for x in self.run(fr, u, st) if x[0] == "panic"]
        finally:
            self.unwinding.pop()

    def run(self, fr, bb0, st0, region=None, header=None):
        out = []
        work = [(bb0, st0, True)]
        while work:
            bb, st, first = work.pop()
            if region is not None and not first:
                if bb == header:
                    out.append(("back", st, None))
                    continue
                if bb not in region:
                    out.append(("exit", st, bb))
                    continue
            if bb in fr.fn.loops and not (region is not None and bb == header and first):
                reg = fr.fn.loops[bb]
                for kind, s, p in self.loop(st, lambda s, bb=bb, reg=reg: self.run(fr, bb, s, reg, bb),
                                            "%s bb%d" % (fr.fn.path, bb), fr.fn):
                    if kind == "exit":
                        work.append((p, s, False))
                    else:
                        out.append((kind, s, p))
                continue
            for kind, s, p in self.block(fr, bb, st):
                if kind == "go":
                    work.append((p, s, False))
                elif kind == "panic" and self.hooks.get("unwind"):
                    out.extend(self.unwind(fr, bb, s, p))
                else:
                    out.append((kind, s, p))
            if len(work) + len(out) > self.MAXSTATES:
                raise Budget("states in " + fr.fn.path)
        return out

    # ------------------------------------------------------------ loops
    def loop(self, st, body, label, fn=None):
        self.nloop += 1
        lid = self.nloop
        L = Loop(lid, label, fn)
        L.init = st
        H = []
        vals = {}
        tried = set()
        guess, guessed, derived = {}, set(), {}
        trims = False
        nolast = set()
        K = T("K", lid)
        for rnd in range(20):
            hs = st.copy()
            hs.events = st.events + (("loop", lid),)
            for pos, c in derived.items():
                if c is not None and pos in vals:
                    vals[pos] = subst(c, {T("lv", lid, show(T("ref", q[0], *q[1]))): vals[q] for q in H if q != pos})
            for pos in H:
                self.write(hs, pos[0], pos[1], vals[pos], True)
            L.head = hs
            save = self.nfresh
            res = self.last_rounds(hs, body(hs.copy()), body, nolast)
            backs, phases = [], []
            newpos = []
            for kind, s, p in res:
                if kind != "back":
                    continue
                ds = []
                for root in list(hs.store) + [x for x in s.store if x not in hs.store and x.op != "loc"]:
                    old = hs.store.get(root)
                    if old is None:
                        old = self.read(hs, root, ())
                    new = s.store.get(root)
                    if new is None or new is old:
                        continue
                    if old is UNDEF:
                        continue
                    ds += [(root, q) for q in diff(old, new, (), hs)]
                if any(q and q[-1].op == "pf" and q[-1].args[0].startswith("$phase") for _, q in ds):
                    phases.append((s, p))
                    continue
                backs.append((s, p))
                for d in ds:
                    if not any(h[0] is d[0] and d[1][:len(h[1])] == h[1] for h in H) and d not in newpos:
                        newpos.append(d)
            if newpos:
                guess.clear()
                derived.clear()
                for d in newpos:
                    for h in list(H):
                        if h[0] is d[0] and h[1][:len(d[1])] == d[1]:
                            H.remove(h)
                            vals.pop(h)
                    if d not in H:
                        H.append(d)
                        vals[d] = T("lv", lid, "".join(show(x) for x in (T("ref", d[0], *d[1]),)))
                tried = set()
                for h in H:
                    if vals[h].op != "lv":
                        vals[h] = T("lv", lid, show(T("ref", h[0], *h[1])))
                continue
            up = False
            # a guessed induction has to hold on every way round the loop
            for pos, d in list(guess.items()):
                if pos in vals and any(self.read(s, pos[0], pos[1]) is not add(vals[pos], d) for s, _ in backs):
                    vals[pos] = T("lv", lid, show(T("ref", pos[0], *pos[1])))
                    del guess[pos]
                    tried = set()
                    up = True
            for pos, c in list(derived.items()):
                if c is not None and pos in vals and any(self.read(s, pos[0], pos[1]) is not subst(c, self.moved(H, s, lid)) for s, _ in backs):
                    vals[pos] = T("lv", lid, show(T("ref", pos[0], *pos[1])))
                    derived[pos] = None
                    tried = set()
                    up = True
            if up:
                continue
            for pos in list(H):
                if pos in tried:
                    continue
                tried.add(pos)
                init = self.read(st, pos[0], pos[1])
                lv = vals[pos]
                bv = [self.read(s, pos[0], pos[1]) for s, _ in backs]
                if not bv:
                    continue
                if all(b is lv for b in bv):
                    H.remove(pos)
                    vals.pop(pos)
                    up = True
                    continue
                if init is UNDEF:
                    continue
                ds = {sub(b, lv) for b in bv}
                if len(ds) == 1 and next(iter(ds)).op == "int":
                    vals[pos] = add(init, scale(K, next(iter(ds)).args[0]))
                    up = True
                elif len(ds) == 1 and next(iter(ds)).op in ("fld", "lin", "mul", "sym", "vlen") and is_int(init) and not any(
                        contains(next(iter(ds)), x) for x in vals.values() if x.op in ("lv", "vcomp", "mcomp")):
                    vals[pos] = add(init, mul(K, next(iter(ds))))
                    up = True
                elif len(set(bv)) == 1 and bv[0].op not in ("lin",) and contains(bv[0], K) and not any(
                        x in vals.values() and x.op in ("lv", "vcomp", "mcomp") for x in subterms(bv[0])) \
                        and subst(bv[0], {K: I(-1)}) is init:
                    # a function of what the loop has done so far
                    vals[pos] = subst(bv[0], {K: sub(K, I(1))})
                    up = True
                elif init.op == "ref" and self.trimmed(st, init, lv, bv, K) is not None:
                    vals[pos] = self.trimmed(st, init, lv, bv, K)
                    trims = True
                    up = True
                elif all(b.op == "vpush" and b.args[0] is lv for b in bv):
                    vals[pos] = T("vcomp", init, lid, show(T("ref", pos[0], *pos[1])))
                    up = True
                elif all(b.op == "mins" and b.args[0] is lv for b in bv):
                    vals[pos] = T("mcomp", init, lid, show(T("ref", pos[0], *pos[1])))
                    up = True
            if not up:
                ints = []
                for pos in H:
                    lv = vals[pos]
                    if lv.op != "lv" or not backs:
                        continue
                    init = self.read(st, pos[0], pos[1])
                    if init is UNDEF or not is_int(init):
                        continue
                    bv = [self.read(s, pos[0], pos[1]) for s, _ in backs]
                    ds = tuple(sub(b, lv) for b in bv)
                    if any(contains(d, lv) for d in ds):
                        continue
                    for p2, i2, d2 in ints:
                        if d2 == ds and vals[p2] is not lv:
                            vals[pos] = add(vals[p2], sub(init, i2))
                            up = True
                            break
                    else:
                        ints.append((pos, init, ds))
            if not up:
                for pos in H:
                    lv = vals[pos]
                    if lv.op != "lv" or pos in guessed or not backs:
                        continue
                    init = self.read(st, pos[0], pos[1])
                    if init is UNDEF:
                        continue
                    ds = {sub(self.read(s, pos[0], pos[1]), lv) for s, _ in backs}
                    nz = [d for d in ds if d is not I(0)]
                    if len(ds) == 2 and len(nz) == 1 and nz[0].op in ("int", "fld", "lin", "mul", "sym") and not any(
                            contains(nz[0], x) for x in vals.values() if x.op in ("lv", "vcomp", "mcomp")):
                        guessed.add(pos)
                        guess[pos] = nz[0]
                        vals[pos] = add(init, mul(K, nz[0]))
                        up = True
                        break
            if not up:
                for pos in H:
                    if vals[pos].op == "lv" and pos not in derived and backs:
                        c = self.derive(st, pos, vals, backs, lid)
                        derived[pos] = c
                        if c is not None:
                            vals[pos] = c
                            tried = set()
                            guessed.clear()
                            up = True
                            break
            if not up:
                break
        else:
            raise Budget("loop does not stabilise: " + label)
        L.vals = vals
        for pos, v in vals.items():
            if v.op in ("lv", "vcomp", "mcomp"):
                self.lvs[v] = (L, pos)
        L.iters = backs
        if trims:
            # the number of elements taken off so far, as if it were a variable
            ctr = (T("ctr", lid), ())
            L.vals = dict(vals)
            L.vals[ctr] = K
            L.init = st.copy()
            L.init.store[ctr[0]] = I(0)
            for s, _ in backs:
                s.store[ctr[0]] = add(K, I(1))
        fills = self.fills(vals, backs, lid)
        L.fill = bool(fills) and all(v in fills or v.op not in ("lv", "vcomp", "mcomp") for v in vals.values()) and \
            all(e[0] == "w" for s, _ in backs for e in s.events[len(hs.events):])
        out = []
        for kind, s, p in res:
            if kind == "back":
                continue
            for s in (self.filled(s, fills, K, hs, backs) if fills and kind == "exit" else (s,)):
                L.exits.append((kind, s, p))
                out.append((kind, s, p))
        self.loops[lid] = L
        for s, p in phases:
            out += self.loop(s, body, label, fn)
        return out


    def moved(self, H, s, lid):
        """What a way round the loop makes of its variables."""
        return {T("lv", lid, show(T("ref", p[0], *p[1]))): self.read(s, p[0], p[1]) for p in H}

    def derive(self, st, pos, vals, backs, lid):
        """A truth value that every way round the loop sets to the same test of the loop's numbers, as it is to begin with."""
        init = self.read(st, pos[0], pos[1])
        if init is UNDEF or init.op not in ("le0", "eq0", "not", "eq", "true", "false"):
            return None
        c = None
        for s, _ in backs:
            m = {}
            for p, v in vals.items():
                new = self.read(s, p[0], p[1])
                if v.op == "lv" and p != pos and (new is v or is_int(new)):
                    d = I(0) if new is v else sub(new, v)
                    if not contains(d, v):
                        m[v] = sub(v, d)
            b = subst(self.read(s, pos[0], pos[1]), m)
            if contains(b, vals[pos]) or not any(v in m for v in subterms(b)) or c not in (None, b):
                return None
            c = b
        z = subst(c, self.moved(vals, st, lid))
        if z is init or init in (TRUE, FALSE) and st.decide(z) is (init is TRUE):
            return c
        return None

    def last_rounds(self, hs, res, body, no):
        """A way round the loop that sets a flag which ends the loop at its next test is an exit, not an iteration."""
        out = []
        for kind, s, p in res:
            pos = None
            if kind == "back":
                pos = next(((root, q) for root, new in s.store.items() if hs.store.get(root) not in (None, new)
                            for q in self.flags(hs.store[root], new, root)), None)
            if pos is None or pos in no:
                out.append((kind, s, p))
                continue
            r2 = body(s.copy())
            if any(k == "back" for k, _, _ in r2):
                no.add(pos)
                out.append((kind, s, p))
            else:
                out += r2
        return out

    def flags(self, old, new, root):
        if new in (TRUE, FALSE) and old is not UNDEF and old.op in ("true", "false", "lv"):
            yield ()

    def trimmed(self, st, init, lv, bv, K):
        """A reference to a slice from which every way round the loop takes as many elements off one end."""
        at = T("at", lv)
        n = vlen(at)
        cut = set()
        for b in bv:
            if b.op != "ref" or len(b.args) != 2 or b.args[0] is not T("obj", lv) or b.args[1].op != "pslice":
                return None
            lo, d = b.args[1].args[0], sub(n, b.args[1].args[1])
            if lo.op != "int" or d.op != "int":
                return None
            cut.add((lo.args[0], d.args[0]))
        if len(cut) != 1:
            return None
        a, z = cut.pop()
        full = vlen(self.load(st, init))
        return self.sub_ref(init, T("pslice", scale(K, a), sub(full, scale(K, z))))

    def fills(self, vals, backs, lid):
        """Vectors to which every way round the loop appends the same value: {value: (initial, value appended)}."""
        r = {}
        for pos, v in vals.items():
            if v.op != "vcomp" or not backs:
                continue
            bv = [self.read(s, pos[0], pos[1]) for s, _ in backs]
            xs = {b.args[1] for b in bv if b.op == "vpush" and b.args[0] is v}
            if len(xs) != 1 or any(b.op != "vpush" for b in bv):
                continue
            x = next(iter(xs))
            if x is UNDEF or any(t.op in ("K", "lv", "vcomp", "mcomp", "ref", "sym", "loc", "call", "opaque") for t in subterms(x)):
                continue
            r[v] = (v.args[0], x)
        return r

    def filled(self, s, fills, K, hs, backs):
        """The state after a loop that appends one value over and over: none appended, or as many as it took."""
        out = []
        z = s.assume(eq(K, I(0), True))
        if z is not None:
            m = {v: b for v, (b, x) in fills.items()}
            z = z.copy()
            z.store = {k: subst(v, m) for k, v in z.store.items()}
            out.append(z)
        n = s.assume(le(I(1), K))
        if n is not None:
            for p in backs[0][0].ints:
                if p not in hs.ints and all(p in b.ints for b, _ in backs) and contains(p, K):
                    n = n.assume(le0(subst(p, {K: sub(K, I(1))})))
                    if n is None:
                        break
        if n is not None:
            m = {v: T("vresize", b, vlen(v), x) for v, (b, x) in fills.items()}
            n = n.copy()
            n.store = {k: subst(v, m) for k, v in n.store.items()}
            out.append(n)
        return out


TRANSPARENT = {"std::mem::ManuallyDrop", "std::cell::UnsafeCell", "std::mem::MaybeUninit", "std::ptr::NonNull"}
TRANSPARENT_FIELDS = set()
