"""Effects of the standard-library functions the analysed program calls."""
from .engine import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def R(st, v=UNIT):
    return [("ret", st, v)]


def PANIC(cx, st, call, what=None):
    return ("panic", st, (what or call["path"], call["span"], call["fr"].fn.path if call.get("fr") else ""))


def targ(call, i=0):
    l = call["targs"]
    return l[i] if i < len(l) else {"k": "other", "s": "?"}


# ---------------------------------------------------------------- identities
IDENT = """std::convert::Into::into std::convert::From::from std::vec::Vec::into_boxed_slice std::convert::AsRef::as_ref
std::ptr::NonNull::as_ptr *mut::cast *const::cast *const::cast_mut *mut::cast_const std::ptr::NonNull::cast std::ptr::NonNull::new_unchecked
std::mem::ManuallyDrop::new std::mem::MaybeUninit::new std::mem::MaybeUninit::as_mut_ptr std::mem::MaybeUninit::as_ptr
std::mem::MaybeUninit::assume_init std::cell::UnsafeCell::new std::cell::UnsafeCell::into_inner
std::mem::ManuallyDrop::into_inner std::cell::UnsafeCell::get std::cell::UnsafeCell::get_mut slice::as_mut_ptr slice::as_ptr
std::vec::Vec::as_slice std::vec::Vec::as_mut_slice std::vec::Vec::as_ptr std::vec::Vec::as_mut_ptr
std::borrow::BorrowMut::borrow_mut std::borrow::Borrow::borrow std::ops::Deref::deref std::ops::DerefMut::deref_mut
std::boxed::Box::new std::convert::identity std::ptr::NonNull::as_ref std::ptr::NonNull::as_mut std::hint::black_box
std::boxed::Box::into_raw std::boxed::Box::leak std::boxed::Box::into_vec slice::into_vec std::vec::Vec::leak
std::ptr::NonNull::from
std::ptr::from_ref std::ptr::from_mut std::mem::MaybeUninit::assume_init_mut std::mem::MaybeUninit::assume_init_ref
std::intrinsics::black_box""".split()
for _n in IDENT:
    M[_n] = lambda cx, st, a, c: R(st, a[0])


@model("std::iter::IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "slice::into_iter")
def into_iter(cx, st, a, call):
    v = a[0]
    if call["info"]["path"] == "std::iter::IntoIterator::into_iter" and is_iter(v):
        return R(st, v)
    if v.op == "ref":
        x = cx.load(st, v)
        if is_iter(x):
            return R(st, v)
        if x.op in ("mnew", "mins", "mrem", "mcomp"):
            return None
        selfty = (call["info"].get("self") or {})
        if selfty.get("k") == "ref" and selfty["t"].get("k") == "adt" and "HashMap" in selfty["t"]["path"]:
            return None
        if selfty.get("k") == "adt" and "std::" not in selfty["path"]:
            return R(st, v)
        return R(st, slice_it(v, vlen(x)))
    if v.op == "agg" and v.args[0] == "std::ops::Range":
        return R(st, v)
    selfty = (call["info"].get("self") or {})
    k = selfty.get("k")
    if v.op == "agg" and v.args[0] == "std::option::Option" or k == "adt" and selfty["path"] == "std::option::Option":
        return [("ret", s, agg("$it.once", 0, "$it.once", ("v", "pos"), (x if c else UNDEF, I(0 if c else 1)))) for c, s, x in opt_cases(cx, st, v)]
    if k == "adt" and selfty["path"] in ("std::vec::Vec", "std::boxed::Box") or k == "array":
        u = T("loc", "own%d" % cx.uid(), 0)
        st.store[u] = v
        return R(st, agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", u), I(0), vlen(v))))
    if k == "ref" and selfty["t"].get("k") in ("slice", "array"):
        return R(st, slice_it(v, vlen(cx.load(st, v))))
    if k == "ref" and selfty["t"].get("k") == "adt" and selfty["t"]["path"] in ("std::vec::Vec", "std::boxed::Box"):
        return R(st, slice_it(v, vlen(cx.load(st, v))))
    if call["info"]["path"].startswith("slice::"):
        return R(st, slice_it(v, vlen(cx.load(st, v))))
    if k == "adt" and selfty["path"] not in ("std::vec::Vec",):
        return R(st, v)
    return None


@model("slice::windows")
def s_windows(cx, st, a, call):
    if a[1].op != "int" or a[1].args[0] < 1:
        return None
    return R(st, agg("$it.windows", 0, "$it.windows", ("base", "pos", "end", "size"), (a[0], I(0), vlen(cx.load(st, a[0])), a[1])))


def slice_it(base, end):
    return agg("$it.slice", 0, "$it.slice", ("base", "pos", "end"), (base, I(0), end))


def is_iter(v):
    while v.op == "with":
        v = v.args[0]
    return v.op == "agg" and (v.args[0].startswith("$it") or v.args[0] in ("std::ops::Range",))


def adapter(name, fields):
    def f(cx, st, a, call):
        vals = list(a)
        return R(st, agg("$it." + name, 0, "$it." + name, fields, vals + [I(0)] * (len(fields) - len(vals))))
    return f


for _n, _f in (("map", ("inner", "f")), ("filter", ("inner", "f")), ("enumerate", ("inner", "n")),
               ("copied", ("inner",)), ("cloned", ("inner",)), ("take_while", ("inner", "f")),
               ("filter_map", ("inner", "f")),
               ("by_ref", None), ("inspect", ("inner", "f")), ("peekable", None), ("step_by", None)):
    if _f:
        M["std::iter::Iterator::" + _n] = adapter(_n, _f)
M["std::iter::Iterator::by_ref"] = lambda cx, st, a, c: R(st, a[0])


def trim(cx, st, it, n, what):
    """skip(n) / take(n) pushed down to the iterators with a position: [(state, iterator)] or None"""
    b = it
    while b.op == "with":
        b = b.args[0]
    if b.op != "agg":
        return None
    k = b.args[0]
    if k in ("$it.slice", "$it.own", "std::ops::Range", "$it.rev", "$it.rrange"):
        pn = "start" if k == "std::ops::Range" else "pos"
        p, e = fld(it, pn), fld(it, "end")
        if k == "$it.rrange":
            p = add(p, fld(it, "start"))
        if k in ("$it.rev", "$it.rrange") and what == "take":
            return None
        tgt = add(p, n)
        out = []
        for c, s in cx.branch(st, le(tgt, e)):
            x = tgt if c else e
            if k == "$it.rrange":
                x = sub(x, fld(it, "start"))
            out.append((s, withf(it, pn if what == "skip" else "end", x)))
        return out
    if k in ("$it.copied", "$it.cloned") or (what == "take" and k in ("$it.map", "$it.enumerate", "$it.inspect")):
        r = trim(cx, st, fld(it, "inner"), n, what)
        return r and [(s, withf(it, "inner", x)) for s, x in r]
    if k == "$it.enumerate":
        out = []
        for s, x in trim(cx, st, fld(it, "inner"), n, what) or ():
            out.append((s, withf(withf(it, "inner", x), "n", add(fld(it, "n"), n))))
        return out or None
    if k == "$it.zip":
        out = []
        for s, x in trim(cx, st, fld(it, "a"), n, what) or ():
            for s2, y in trim(cx, s, fld(it, "b"), n, what) or ():
                out.append((s2, withf(withf(it, "a", x), "b", y)))
        return out or None
    return None


def _trim(what):
    def f(cx, st, a, call):
        r = trim(cx, st, a[0], a[1], what)
        if r is not None:
            return [("ret", s, v) for s, v in r]
        if what == "take":
            return R(st, agg("$it.take", 0, "$it.take", ("inner", "n"), (a[0], a[1])))
        return None
    return f


M["std::iter::Iterator::skip"] = _trim("skip")
M["std::iter::Iterator::take"] = _trim("take")


@model("std::iter::Iterator::rev")
def it_rev(cx, st, a, call):
    v = a[0]
    if v.op == "agg" and v.args[0] == "$it.slice" and v.args[5] is I(0):
        return R(st, agg("$it.rev", 0, "$it.rev", ("base", "pos", "end"), (v.args[4], I(0), v.args[6])))
    if v.op == "agg" and v.args[0] in ("$it.map", "$it.copied", "$it.cloned", "$it.inspect", "$it.filter"):
        r = it_rev(cx, st, [v.args[4]], call)
        return r and R(r[0][1], withf(v, "inner", r[0][2]))
    if v.op == "agg" and v.args[0] == "std::ops::Range":
        return R(st, agg("$it.rrange", 0, "$it.rrange", ("start", "pos", "end"), (v.args[4], I(0), v.args[5])))
    return None


@model("std::iter::Iterator::zip", "std::iter::zip")
def it_zip(cx, st, a, call):
    out = []
    info = dict(call["info"], path="std::iter::IntoIterator::into_iter")
    ty = call["targs"][1] if len(call["targs"]) > 1 else None
    info["self"] = ty
    b = a[1]
    if not is_iter(b):
        r = into_iter(cx, st, [b], dict(call, info=info))
        if r is None:
            return None
        return [("ret", s, agg("$it.zip", 0, "$it.zip", ("a", "b"), (a[0], b))) for _, s, b in r]
    return R(st, agg("$it.zip", 0, "$it.zip", ("a", "b"), (a[0], b)))


@model("std::iter::Iterator::chain")
def it_chain(cx, st, a, call):
    b = a[1]
    if not is_iter(b):
        info = dict(call["info"], path="std::iter::IntoIterator::into_iter")
        info["self"] = call["targs"][1] if len(call["targs"]) > 1 else None
        r = into_iter(cx, st, [b], dict(call, info=info))
        if r is None:
            return None
        return [("ret", s, agg("$it.chain", 0, "$it.chain", ("a", "b", "$phase"), (a[0], b, I(0)))) for _, s, b in r]
    return R(st, agg("$it.chain", 0, "$it.chain", ("a", "b", "$phase"), (a[0], b, I(0))))


@model("std::option::Option::iter", "std::option::Option::iter_mut")
def o_iter(cx, st, a, call):
    return [("ret", s, agg("$it.once", 0, "$it.once", ("v", "pos"), (cx.sub_ref(a[0], T("pv", "Some", "0")) if c else UNDEF, I(0 if c else 1))))
            for c, s, x in opt_cases(cx, st, cx.load(st, a[0]))]


@model("std::iter::once")
def it_once(cx, st, a, call):
    return R(st, agg("$it.once", 0, "$it.once", ("v", "pos"), (a[0], I(0))))


@model("std::iter::empty")
def it_empty(cx, st, a, call):
    return R(st, agg("$it.once", 0, "$it.once", ("v", "pos"), (UNDEF, I(1))))


@model("std::iter::repeat")
def it_repeat(cx, st, a, call):
    return R(st, agg("$it.repeat", 0, "$it.repeat", ("v",), (a[0],)))


def it_next(cx, st, r, call):
    """Advance the iterator stored behind the reference r: [(kind, state, Option value)]."""
    it = cx.load(st, r)
    b = it
    while b.op == "with":
        b = b.args[0]
    if it.op == "ref":
        return it_next(cx, st, it, call)
    if b.op != "agg":
        return None
    k = b.args[0]
    F = lambda n: fld(it, n)
    at = lambda n: cx.sub_ref(r, pf(n))

    def setf(s, n, v):
        cx.store(s, at(n), v)
    if k in ("$it.slice", "$it.own", "$it.rev"):
        out = []
        for c, s in cx.branch(st, lt(F("pos"), F("end"))):
            s = s.copy()
            if c:
                i = F("pos") if k != "$it.rev" else sub(sub(F("end"), I(1)), F("pos"))
                e = cx.sub_ref(F("base"), pi(i))
                if k == "$it.own":
                    e = cx.load(s, e)
                setf(s, "pos", add(F("pos"), I(1)))
                out.append(("ret", s, some(e)))
            else:
                out.append(("ret", s, NONE))
        return out
    if k == "$it.windows":
        out = []
        last = add(F("pos"), F("size"))
        for c, s in cx.branch(st, le(last, F("end"))):
            s = s.copy()
            if c:
                setf(s, "pos", add(F("pos"), I(1)))
                out.append(("ret", s, some(cx.sub_ref(F("base"), T("pslice", F("pos"), last)))))
            else:
                out.append(("ret", s, NONE))
        return out
    if k in ("std::ops::Range", "$it.rrange"):
        if k == "std::ops::Range":
            lo, hi = F("start"), F("end")
        else:
            lo, hi = add(F("start"), F("pos")), F("end")
        out = []
        for c, s in cx.branch(st, lt(lo, hi)):
            s = s.copy()
            if c:
                if k == "std::ops::Range":
                    setf(s, "start", add(lo, I(1)))
                    out.append(("ret", s, some(lo)))
                else:
                    setf(s, "pos", add(F("pos"), I(1)))
                    out.append(("ret", s, some(sub(sub(hi, I(1)), F("pos")))))
            else:
                out.append(("ret", s, NONE))
        return out
    if k == "$it.once":
        out = []
        for c, s in cx.branch(st, lt(F("pos"), I(1))):
            s = s.copy()
            if c:
                setf(s, "pos", add(F("pos"), I(1)))
                out.append(("ret", s, some(F("v"))))
            else:
                out.append(("ret", s, NONE))
        return out
    if k == "$it.repeat":
        return R(st, some(F("v")))
    if k in ("$it.copied", "$it.cloned"):
        out = []
        rr = it_next_any(cx, st, at("inner"), call)
        if rr is None:
            return None
        for kind, s, v in rr:
            if kind == "ret" and v.op == "agg" and v.args[2] == "Some":
                v = some(cx.load(s, v.args[4]))
            out.append((kind, s, v))
        return out
    if k == "$it.map" or k == "$it.inspect":
        out = []
        rr = it_next_any(cx, st, at("inner"), call)
        if rr is None:
            return None
        for kind, s, v in rr:
            if kind != "ret":
                out.append((kind, s, v))
                continue
            for b_, s2, x in opt_cases(cx, s, v):
                if not b_:
                    out.append(("ret", s2, NONE))
                else:
                    arg = x
                    if k == "$it.inspect":
                        u = T("loc", "tmp%d" % cx.uid(), 0)
                        s2 = s2.copy()
                        s2.store[u] = x
                        arg = T("ref", u)
                    for kk, s3, y in call_fnval(cx, s2, at("f"), [arg], call):
                        out.append((kk, s3, (some(y) if k == "$it.map" else some(x)) if kk == "ret" else y))
        return out
    if k == "$it.take_while":
        out = []
        rr = it_next_any(cx, st, at("inner"), call)
        if rr is None:
            return None
        for kind, s, v in rr:
            if kind != "ret":
                out.append((kind, s, v))
                continue
            for b_, s2, x in opt_cases(cx, s, v):
                if not b_:
                    out.append(("ret", s2, NONE))
                    continue
                u = T("loc", "tmp%d" % cx.uid(), 0)
                s2 = s2.copy()
                s2.store[u] = x
                for kk, s3, y in call_fnval(cx, s2, at("f"), [T("ref", u)], call):
                    if kk != "ret":
                        out.append((kk, s3, y))
                        continue
                    for c, s4 in cx.branch(s3, y):
                        out.append(("ret", s4, some(x) if c else NONE))
        return out
    if k == "$it.enumerate":
        out = []
        rr = it_next_any(cx, st, at("inner"), call)
        if rr is None:
            return None
        for kind, s, v in rr:
            if kind != "ret":
                out.append((kind, s, v))
                continue
            for b_, s2, x in opt_cases(cx, s, v):
                if not b_:
                    out.append(("ret", s2, NONE))
                else:
                    s2 = s2.copy()
                    n = cx.load(s2, at("n"))
                    setf(s2, "n", add(n, I(1)))
                    out.append(("ret", s2, some(tup(n, x))))
        return out
    if k == "$it.take":
        out = []
        for c, s in cx.branch(st, lt(I(0), F("n"))):
            if not c:
                out.append(("ret", s, NONE))
                continue
            s = s.copy()
            setf(s, "n", sub(cx.load(s, at("n")), I(1)))
            rr = it_next_any(cx, s, at("inner"), call)
            if rr is None:
                return None
            out += rr
        return out
    if k == "$it.zip":
        out = []
        rr = it_next_any(cx, st, at("a"), call)
        if rr is None:
            return None
        for kind, s, v in rr:
            if kind != "ret":
                out.append((kind, s, v))
                continue
            for b_, s2, x in opt_cases(cx, s, v):
                if not b_:
                    out.append(("ret", s2, NONE))
                    continue
                rb = it_next_any(cx, s2, at("b"), call)
                if rb is None:
                    return None
                for kind2, s3, w in rb:
                    if kind2 != "ret":
                        out.append((kind2, s3, w))
                        continue
                    for c_, s4, y in opt_cases(cx, s3, w):
                        out.append(("ret", s4, some(tup(x, y)) if c_ else NONE))
        return out
    if k == "$it.chain":
        ph = F("$phase")
        out = []
        if ph is I(0):
            rr = it_next_any(cx, st, at("a"), call)
            if rr is None:
                return None
            for kind, s, v in rr:
                if kind != "ret":
                    out.append((kind, s, v))
                    continue
                for b_, s2, x in opt_cases(cx, s, v):
                    if b_:
                        out.append(("ret", s2, some(x)))
                    else:
                        s2 = s2.copy()
                        setf(s2, "$phase", I(1))
                        rb = it_next_any(cx, s2, at("b"), call)
                        if rb is None:
                            return None
                        out += rb
            return out
        return it_next_any(cx, st, at("b"), call)
    if k in ("$it.filter", "$it.filter_map"):
        # skip rejected elements: a synthetic loop whose body draws one element and leaves when it is accepted
        def body(s):
            res = []
            rr = it_next_any(cx, s, at("inner"), call)
            if rr is None:
                raise Unsupported("iterator")
            for kind, s1, v in rr:
                if kind != "ret":
                    res.append((kind, s1, v))
                    continue
                for b_, s2, x in opt_cases(cx, s1, v):
                    if not b_:
                        res.append(("exit", s2, NONE))
                        continue
                    if k == "$it.filter_map":
                        for kk, s3, y in call_fnval(cx, s2, at("f"), [x], call):
                            if kk != "ret":
                                res.append((kk, s3, y))
                                continue
                            for c, s4, z in opt_cases(cx, s3, y):
                                res.append(("exit", s4, some(z)) if c else ("back", s4, None))
                        continue
                    u = T("loc", "tmp%d" % cx.uid(), 0)
                    s2 = s2.copy()
                    s2.store[u] = x
                    for kk, s3, y in call_fnval(cx, s2, at("f"), [T("ref", u)], call):
                        if kk != "ret":
                            res.append((kk, s3, y))
                            continue
                        s3 = s3.copy()
                        s3.store.pop(u, None)
                        for c, s4 in cx.branch(s3, y):
                            res.append(("exit", s4, some(x)) if c else ("back", s4, None))
            return res
        out = []
        for kind, s, p in cx.loop(st, body, "filter", call["fr"].fn if call["fr"] else None):
            out.append(("ret", s, p) if kind == "exit" else (kind, s, p))
        return out
    return None


def it_next_any(cx, st, r, call):
    res = it_next(cx, st, r, call)
    if res is not None:
        return res
    it = cx.load(st, r)
    while it.op == "with":
        it = it.args[0]
    # an iterator implemented by the program
    p = it.args[0] if it.op == "agg" else None
    if p is None:
        return None
    f = cx.find_impl("std::iter::Iterator", "next", {"k": "adt", "path": p, "args": []})
    if f is None:
        return None
    h = cx.boundary.get(f.path)
    if h is not None:
        return h(cx, st.copy(), [r], dict(call, path=f.path))
    return cx.exec_body(f, [r], {}, st)


def opt_cases(cx, st, v):
    """[(is_some, state, payload)]"""
    if v.op == "agg":
        return [(True, st, v.args[4])] if v.args[2] == "Some" else [(False, st, None)]
    out = []
    s = st.setvar(v, "Some")
    if s is not None:
        out.append((True, s, vfld(v, "Some", "0")))
    s = st.setvar(v, "None")
    if s is not None:
        out.append((False, s, None))
    return out


def call_fnval(cx, st, fref, args, call):
    f = cx.load(st, fref) if fref.op == "ref" else fref
    sr = fref if fref.op == "ref" else None
    n = 0
    while f.op == "ref" and n < 4:
        sr = f
        f = cx.load(st, f)
        n += 1
    if f.op == "agg" and f.args[0] == "$closure" or f.op == "closure":
        return cx.call_closure(st, f, args, call["span"], sr)
    return cx.apply(call.get("fr"), st, f, args, call["span"])


@model("std::iter::Iterator::next")
def m_next(cx, st, a, call):
    return it_next(cx, st, a[0], call)


def few(it):
    """The number of elements an iterator over a short list of known length has left."""
    for _ in range(6):
        while it.op == "with":
            return None
        if it.op != "agg":
            return None
        if it.args[0] in ("$it.slice", "$it.own"):
            p, n = fld(it, "pos"), fld(it, "end")
            return n.args[0] - p.args[0] if p.op == n.op == "int" and 0 <= n.args[0] - p.args[0] <= 3 else None
        if it.args[0] not in ("$it.map", "$it.copied", "$it.cloned", "$it.enumerate"):
            return None
        it = fld(it, "inner")
    return None


def consumer(cx, st, it, call, step, done, label):
    """Synthetic loop over an iterator value; step(s, x) -> [("back"|"exit"|"panic", state, payload)]."""
    ext = it.op == "ref"
    if ext:
        r = it
    else:
        u = T("loc", "it%d" % cx.uid(), 0)
        st = st.copy()
        st.store[u] = it
        r = T("ref", u)
    probe = cx.load(st, r)
    while probe.op == "with" or probe.op == "ref":
        probe = probe.args[0] if probe.op == "with" else cx.load(st, probe)
    if probe.op != "agg":
        return None

    def body(s):
        res = []
        rr = it_next_any(cx, s, r, call)
        if rr is None:
            raise Unsupported("iterator " + probe.args[0])
        for kind, s1, v in rr:
            if kind != "ret":
                res.append((kind, s1, v))
                continue
            for b_, s2, x in opt_cases(cx, s1, v):
                if not b_:
                    res += [(("exit" if k == "ret" else k), s3, y) for k, s3, y in done(s2)]
                else:
                    res += step(s2, x)
        return res
    out = []
    if few(probe) is not None and label in ("all", "any", "find", "find_map", "position"):
        # a search among a known few: one after the other
        todo = [st]
        for _ in range(few(probe) + 1):
            nxt = []
            for s in todo:
                for kind, s2, p in body(s.copy()):
                    if kind == "back":
                        nxt.append(s2)
                    else:
                        out.append(("ret" if kind == "exit" else kind, s2, p))
            todo = nxt
        return out
    for kind, s, p in cx.loop(st, body, label + " " + (call["fr"].fn.path if call.get("fr") else ""),
                              call["fr"].fn if call.get("fr") else None):
        if kind == "exit":
            out.append(("ret", s, p))
        else:
            out.append((kind, s, p))
    return out


@model("std::iter::Iterator::for_each")
def it_for_each(cx, st, a, call):
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[u] = a[1]

    def step(s, x):
        return [(("back" if k == "ret" else k), s2, y) for k, s2, y in call_fnval(cx, s, T("ref", u), [x], call)]
    return consumer(cx, st, a[0], call, step, lambda s: R(s), "for_each")


def elem_test(cx, st, it, f, call):
    """Recognise any(|x| *x == v): (vec value, v, sign) or None."""
    if not (it.op == "agg" and it.args[0] == "$it.slice" and it.args[5] is I(0)):
        return None
    base = it.args[4]
    v = cx.load(st, base)
    if it.args[6] is not vlen(v):
        return None
    k = cx.fresh("elem")
    s = st.copy()
    e = cx.sub_ref(base, pi(k))
    s0 = s.assume(lt(k, vlen(v)))
    if s0 is None:
        return None
    n0 = len(s0.events)
    ev = vget(v, k, s0)
    try:
        res = call_fnval(cx, s0, f, [e], call)
    except Unsupported:
        return None
    if any(r[0] != "ret" or len(r[1].events) != n0 for r in res) or not res:
        return None
    if len(res) == 1:
        t = res[0][2]
        sign = True
        if t.op == "not":
            t, sign = t.args[0], False
        if t.op == "eq" and any(x is ev for x in t.args):
            o = t.args[1] if t.args[0] is ev else t.args[0]
            if not contains(o, k):
                return v, o, sign
    return None


def cont(v, x):
    return contains_t(v, x)


def contains_t(v, x):
    if v.op == "vnew":
        return FALSE
    return T("contains", v, x)


@model("slice::contains")
def m_contains(cx, st, a, call):
    return R(st, contains_t(cx.load(st, a[0]), cx.load(st, a[1])))


def _anyall(is_any):
    def f(cx, st, a, call):
        it = a[0]
        itv = cx.load(st, it) if it.op == "ref" else it
        r = elem_test(cx, st, itv, a[1], call)
        if r is not None and r[2] == is_any:
            c = contains_t(r[0], r[1])
            return R(st, c if is_any else neg(c))
        u = T("loc", "f%d" % cx.uid(), 0)
        st.store[u] = a[1]

        def step(s, x):
            out = []
            for k, s2, y in call_fnval(cx, s, T("ref", u), [x], call):
                if k != "ret":
                    out.append((k, s2, y))
                    continue
                for c, s3 in cx.branch(s2, y):
                    if c == is_any:
                        out.append(("exit", s3, B(is_any)))
                    else:
                        out.append(("back", s3, None))
            return out
        return consumer(cx, st, it, call, step, lambda s: R(s, B(not is_any)), "any" if is_any else "all")
    return f


M["std::iter::Iterator::any"] = _anyall(True)
M["std::iter::Iterator::all"] = _anyall(False)


@model("std::iter::Iterator::position", "std::iter::Iterator::find")
def it_position(cx, st, a, call):
    pos = call["info"]["name"] == "position"
    it = a[0]
    itv = cx.load(st, it) if it.op == "ref" else it
    f = a[1]
    if not pos:
        r = None
    else:
        r = elem_test(cx, st, itv, f, call)
    if r is not None and r[2]:
        v, o, _ = r
        p = T("posof", v, o)
        out = []
        for c, s in cx.branch(st, contains_t(v, o)):
            if c:
                s = s.assume(lt(p, vlen(v)))
                if s is not None:
                    s = s.assume(eq(vget(v, p, s), o))
                if s is not None:
                    out.append(("ret", s, some(p)))
            else:
                out.append(("ret", s, NONE))
        return out
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[u] = a[1]
    cnt = T("loc", "n%d" % cx.uid(), 0)
    st.store[cnt] = I(0)

    def step(s, x):
        out = []
        s = s.copy()
        arg = x
        if not pos:
            w = T("loc", "tmp%d" % cx.uid(), 0)
            s.store[w] = x
            arg = T("ref", w)
        for k, s2, y in call_fnval(cx, s, T("ref", u), [arg], call):
            if k != "ret":
                out.append((k, s2, y))
                continue
            for c, s3 in cx.branch(s2, y):
                n = s3.store[cnt]
                if c:
                    out.append(("exit", s3, some(n if pos else x)))
                else:
                    s3 = s3.copy()
                    s3.store[cnt] = add(n, I(1))
                    out.append(("back", s3, None))
        return out
    return consumer(cx, st, it, call, step, lambda s: R(s, NONE), "position" if pos else "find")


@model("std::iter::Iterator::fold")
def it_fold(cx, st, a, call):
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st.store[acc] = a[1]
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[u] = a[2]

    def step(s, x):
        out = []
        for k, s2, y in call_fnval(cx, s, T("ref", u), [s.store[acc], x], call):
            if k == "ret":
                s2 = s2.copy()
                s2.store[acc] = y
                out.append(("back", s2, None))
            else:
                out.append((k, s2, y))
        return out
    return consumer(cx, st, a[0], call, step, lambda s: R(s, s.store[acc]), "fold")


@model("std::iter::Iterator::count")
def it_count(cx, st, a, call):
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st.store[acc] = I(0)

    def step(s, x):
        s = s.copy()
        s.store[acc] = add(s.store[acc], I(1))
        return [("back", s, None)]
    return consumer(cx, st, a[0], call, step, lambda s: R(s, s.store[acc]), "count")


@model("std::iter::Iterator::sum")
def it_sum(cx, st, a, call):
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st.store[acc] = I(0)

    def step(s, x):
        s = s.copy()
        x = cx.load(s, x) if x.op == "ref" else x
        s.store[acc] = add(s.store[acc], x)
        return [("back", s, None)]
    return consumer(cx, st, a[0], call, step, lambda s: R(s, s.store[acc]), "sum")


def _minmax(op):
    def f(cx, st, a, call):
        acc = T("loc", "acc%d" % cx.uid(), 0)
        st.store[acc] = NONE

        def step(s, x):
            if x.op in ("ref", "agg"):
                raise Unsupported("minimum of compound values")
            out = []
            for c, s2, y in opt_cases(cx, s, s.store[acc]):
                s2 = s2.copy()
                s2.store[acc] = some(mn(op, y, x, s2) if c else x)
                out.append(("back", s2, None))
            return out
        return consumer(cx, st, a[0], call, step, lambda s: R(s, s.store[acc]), op)
    return f


M["std::iter::Iterator::min"] = _minmax("min")
M["std::iter::Iterator::max"] = _minmax("max")


@model("std::iter::Iterator::find_map")
def it_find_map(cx, st, a, call):
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[u] = a[1]

    def step(s, x):
        out = []
        for k, s2, y in call_fnval(cx, s, T("ref", u), [x], call):
            if k != "ret":
                out.append((k, s2, y))
                continue
            for c, s3, z in opt_cases(cx, s2, y):
                out.append(("exit", s3, some(z)) if c else ("back", s3, None))
        return out
    return consumer(cx, st, a[0], call, step, lambda s: R(s, NONE), "find_map")


@model("std::iter::Iterator::last")
def it_last(cx, st, a, call):
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st.store[acc] = NONE

    def step(s, x):
        s = s.copy()
        s.store[acc] = some(x)
        return [("back", s, None)]
    return consumer(cx, st, a[0], call, step, lambda s: R(s, s.store[acc]), "last")


@model("std::iter::Iterator::nth")
def it_nth(cx, st, a, call):
    it = cx.load(st, a[0])
    r = trim(cx, st, it, a[1], "skip")
    if r is None:
        return None
    out = []
    for s, v in r:
        s = s.copy()
        cx.store(s, a[0], v)
        rr = it_next_any(cx, s, a[0], call)
        if rr is None:
            return None
        out += rr
    return out


def _somewhere(cx, st, a, call):
    """The least or greatest element by some key: an element of the iterator, if it has any."""
    it = a[0]
    while it.op == "with":
        it = it.args[0]
    b = it
    while b.op == "agg" and b.args[0] in ("$it.copied", "$it.cloned", "$it.map", "$it.enumerate", "$it.inspect"):
        b = b.args[4]
    if b.op != "agg" or b.args[0] not in ("$it.slice", "$it.own", "std::ops::Range"):
        return None
    p, e = (b.args[4], b.args[5]) if b.args[0] == "std::ops::Range" else (b.args[5], b.args[6])
    out = []
    for c, s in cx.branch(st, lt(p, e)):
        if not c:
            out.append(("ret", s, NONE))
            continue
        k = cx.fresh("least")
        s = s.assume(lt(add(p, k), e))
        for s2, v in (trim(cx, s, a[0], k, "skip") if s is not None else ()) or ():
            u = T("loc", "it%d" % cx.uid(), 0)
            s2 = s2.copy()
            s2.store[u] = v
            rr = it_next_any(cx, s2, T("ref", u), call)
            if rr is None:
                return None
            for kind, s3, x in rr:
                if kind == "ret" and x is NONE:
                    continue
                out.append((kind, s3, x))
    return out


for _n in ("min_by_key", "max_by_key", "min_by", "max_by"):
    M["std::iter::Iterator::" + _n] = _somewhere


def _from_end(n):
    def f(cx, st, a, call):
        # rfind and rposition take the iterator by reference
        it = cx.load(st, a[0])
        r = it_rev(cx, st, [it], call)
        if r is None:
            return None
        st = r[0][1].copy()
        u = T("loc", "rev%d" % cx.uid(), 0)
        st.store[u] = r[0][2]
        c2 = dict(call, info=dict(call["info"], name="position" if n == "rposition" else "find"))
        res = it_position(cx, st, [T("ref", u), a[1]], c2)
        if res is None or n == "rfind":
            return res
        b = it
        while b.op == "agg" and b.args[0] in ("$it.copied", "$it.cloned", "$it.map", "$it.inspect"):
            b = b.args[4]
        if b.op != "agg" or b.args[0] != "$it.slice" or b.args[5] is not I(0):
            return None
        out = []
        for k, s, v in res:
            if k == "ret" and v.op == "agg" and v.args[2] == "Some":
                v = some(sub(sub(b.args[6], v.args[4]), I(1)))
            out.append((k, s, v))
        return out
    return f


M["std::iter::Iterator::rposition"] = _from_end("rposition")
M["std::iter::DoubleEndedIterator::rfind"] = _from_end("rfind")


@model("std::iter::Iterator::try_for_each")
def it_try_for_each(cx, st, a, call):
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[u] = a[1]
    t = next((x for x in call["targs"] if x.get("k") == "adt" and x["path"] in ("std::option::Option", "std::result::Result")), None)
    if t is None:
        return None
    opt = t["path"].endswith("Option")

    def step(s, x):
        out = []
        for k, s2, y in call_fnval(cx, s, T("ref", u), [x], call):
            if k != "ret":
                out.append((k, s2, y))
            elif opt:
                out += [("back", s3, None) if c else ("exit", s3, NONE) for c, s3, z in opt_cases(cx, s2, y)]
            elif y.op == "agg":
                out.append(("back", s2, None) if y.args[2] == "Ok" else ("exit", s2, y))
            else:
                for vn in ("Ok", "Err"):
                    s3 = s2.setvar(y, vn)
                    if s3 is not None:
                        out.append(("back", s3, None) if vn == "Ok" else ("exit", s3, y))
        return out
    v = cx.load(st, a[0])
    return consumer(cx, st, a[0] if is_iter(v) else v, call, step, lambda s: R(s, some(UNIT) if opt else ok(UNIT)), "for_each")


@model("std::iter::Iterator::eq", "std::iter::Iterator::ne")
def it_eq(cx, st, a, call):
    vs = []
    for it in a[:2]:
        if not is_iter(it) and it.op == "ref":
            it = slice_it(it, vlen(cx.load(st, it)))
        while it.op == "agg" and it.args[0] in ("$it.copied", "$it.cloned"):
            it = it.args[4]
        if it.op != "agg" or it.args[0] not in ("$it.slice", "$it.own") or it.args[5] is not I(0):
            return None
        v = cx.load(st, it.args[4])
        if it.args[6] is not vlen(v):
            return None
        vs.append(v)
    r = eq(*vs)
    return R(st, r if call["info"]["name"] == "eq" else neg(r))


@model("std::array::from_fn", "array::map")
def arr_from_fn(cx, st, a, call):
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st = st.copy()
    st.store[acc] = T("vnew")
    if call["info"]["name"] == "map":
        u = T("loc", "own%d" % cx.uid(), 0)
        st.store[u] = a[0]
        it = agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", u), I(0), vlen(a[0])))
        f = a[1]
    else:
        n = next((t for t in call["targs"] if t.get("k") in ("const", "cparam")), None)
        if n is None:
            return None
        it = agg("std::ops::Range", 0, "Range", ("start", "end"), (I(0), I(n["v"]) if n["k"] == "const" else T("cparam", n["name"])))
        f = a[0]
    w = T("loc", "f%d" % cx.uid(), 0)
    st.store[w] = f

    def step(s, x):
        out = []
        for k, s2, y in call_fnval(cx, s, T("ref", w), [x], call):
            if k == "ret":
                s2 = s2.copy()
                s2.store[acc] = T("vpush", s2.store[acc], y)
                out.append(("back", s2, None))
            else:
                out.append((k, s2, y))
        return out
    return consumer(cx, st, it, call, step, lambda s: R(s, s.store[acc]), "collect")


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def it_collect(cx, st, a, call):
    it = a[0]
    if call["info"]["name"] == "collect":
        t = call["targs"][1] if len(call["targs"]) > 1 else {"k": "?"}
    else:
        t = call["info"].get("self") or {"k": "?"}
    k = t.get("k")
    p = t.get("path", "")
    opt = None
    if p in ("std::option::Option", "std::result::Result"):
        opt = p
        t = t["args"][0] if t.get("args") else {}
        p = t.get("path", "")
    mapish = p.endswith("HashMap")
    if not mapish and p not in ("std::vec::Vec", "std::boxed::Box"):
        return None
    acc = T("loc", "acc%d" % cx.uid(), 0)
    st.store[acc] = T("mnew") if mapish else T("vnew")
    if not is_iter(it):
        info = dict(call["info"], path="std::iter::IntoIterator::into_iter")
        info["self"] = call["targs"][0] if call["targs"] else None
        r = into_iter(cx, st, [it], dict(call, info=info))
        if r is None:
            return None
        st, it = r[0][1], r[0][2]

    def put(s, x):
        s = s.copy()
        if mapish:
            s.store[acc] = T("mins", s.store[acc], fld(x, "0"), fld(x, "1"))
        else:
            s.store[acc] = T("vpush", s.store[acc], x)
        return [("back", s, None)]

    def step(s, x):
        if opt is None:
            return put(s, x)
        out = []
        if opt == "std::option::Option":
            for c, s2, y in opt_cases(cx, s, x):
                out += put(s2, y) if c else [("exit", s2, NONE)]
        else:
            for vn in ("Ok", "Err"):
                s2 = s.setvar(x, vn) if x.op != "agg" else (s if x.args[2] == vn else None)
                if s2 is not None:
                    y = x.args[4] if x.op == "agg" else vfld(x, vn, "0")
                    out += put(s2, y) if vn == "Ok" else [("exit", s2, err(y))]
        return out
    wrap = {None: lambda v: v, "std::option::Option": some, "std::result::Result": ok}[opt]
    return consumer(cx, st, it, call, step, lambda s: R(s, wrap(s.store[acc])), "collect")


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice")
def v_extend(cx, st, a, call):
    it = a[1]
    r = a[0]
    if not is_iter(it):
        if it.op == "ref" or call["info"]["name"] == "extend_from_slice":
            x = cx.load(st, it)
            it = slice_it(it, vlen(x))
        else:
            u = T("loc", "own%d" % cx.uid(), 0)
            st.store[u] = it
            it = agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", u), I(0), vlen(it)))

    amap = ((call["info"].get("self") or {}).get("path") or "").endswith("HashMap")

    def step(s, x):
        s = s.copy()
        if x.op == "ref":
            x = cx.load(s, x)
        if amap:
            m, k = cx.load(s, r), fld(x, "0")
            s.ev("minsert", r, k, fld(x, "1"), mhas(m, k, s), call["span"])
            cx.store(s, r, T("mins", m, k, fld(x, "1")))
            return [("back", s, None)]
        cx.store(s, r, T("vpush", cx.load(s, r), x))
        return [("back", s, None)]
    return consumer(cx, st, it, call, step, lambda s: R(s), "extend")


# ---------------------------------------------------------------- Vec and slices
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::default::Default::default")
def v_new(cx, st, a, call):
    if call["info"]["name"] == "default":
        s = call["info"].get("self") or {}
        if s.get("path") == "std::vec::Vec":
            return R(st, T("vnew"))
        if (s.get("path") or "").endswith("HashMap"):
            return R(st, T("mnew"))
        if s.get("k") in ("uint", "int"):
            return R(st, I(0))
        if s.get("k") == "bool":
            return R(st, FALSE)
        if s.get("path") == "std::option::Option":
            return R(st, NONE)
        return None
    return R(st, T("vnew"))


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::vec::Vec::shrink_to_fit", "std::vec::Vec::shrink_to",
       "std::collections::HashMap::reserve", "std::collections::HashMap::shrink_to_fit")
def v_reserve(cx, st, a, call):
    return R(st)


@model("std::collections::HashMap::len", "std::collections::HashSet::len")
def m_maplen(cx, st, a, call):
    return R(st, T("mlen", cx.load(st, a[0])))


@model("std::collections::HashMap::is_empty")
def m_mapempty(cx, st, a, call):
    m = cx.load(st, a[0])
    return R(st, TRUE if m.op == "mnew" else FALSE if m.op == "mins" else eq(T("mlen", m), I(0), True))


@model("std::vec::Vec::push")
def v_push(cx, st, a, call):
    cx.store(st, a[0], T("vpush", cx.load(st, a[0]), a[1]))
    return R(st)


def swapped_out(cx, st, ref, v):
    """The last element having been exchanged with another just before, removing it is `swap_remove` of the other: (events without
    the exchange, value), or None."""
    if v.op != "vset" or v.args[0].op != "vset" or v.args[0].args[0].op not in ("fld", "vget", "sym"):
        return None
    (w, j, y), (b, i, x) = v.args, v.args[0].args
    last = sub(vlen(b), I(1))
    if st.decide(eq(i, last, True)) is True:
        i, j, x, y = j, i, y, x
    if st.decide(eq(j, last, True)) is not True or x is not vget(b, last, st) or y is not vget(b, i, st):
        return None
    if len(st.events) < 2 or any(e[0] != "w" for e in st.events[-2:]):
        return None
    r, p = cx.deref_ref(ref)
    if any(e[1] is not r or len(e[2]) != len(p) + 1 or e[2][:-1] != p for e in st.events[-2:]):
        return None
    return st.events[:-2], T("vswaprm", b, i)


@model("std::vec::Vec::pop")
def v_pop(cx, st, a, call):
    v = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, le(I(1), vlen(v))):
        s = s.copy()
        if c:
            x = vget(v, sub(vlen(v), I(1)), s)
            sr = swapped_out(cx, s, a[0], v)
            if sr is not None:
                s.events, nv = sr[0], sr[1]
                s.ev("vswaprm", a[0], nv.args[0], nv.args[1], x, call["span"])
            else:
                nv = v.args[0] if v.op == "vpush" else T("vpop", v)
            cx.store(s, a[0], nv)
            out.append(("ret", s, some(x)))
        else:
            out.append(("ret", s, NONE))
    return out


@model("std::vec::Vec::len", "slice::len")
def v_len(cx, st, a, call):
    return R(st, vlen(cx.load(st, a[0])))


@model("std::vec::Vec::capacity")
def v_capacity(cx, st, a, call):
    v = cx.load(st, a[0])
    c = T("cap", v)
    s2 = st.assume(le(vlen(v), c), True)
    return R(s2 if s2 is not None else st, c)


@model("std::vec::Vec::is_empty", "slice::is_empty")
def v_is_empty(cx, st, a, call):
    return R(st, eq(vlen(cx.load(st, a[0])), I(0), True))


def _vrm(op):
    def f(cx, st, a, call):
        v = cx.load(st, a[0])
        i = a[1]
        out = []
        for c, s in cx.branch(st, lt(i, vlen(v))):
            if not c:
                out.append(PANIC(cx, s, call))
                continue
            s = s.copy()
            x = vget(v, i, s)
            cx.store(s, a[0], T(op, v, i))
            s.ev(op, a[0], v, i, x, call["span"])
            out.append(("ret", s, x))
        return out
    return f


M["std::vec::Vec::swap_remove"] = _vrm("vswaprm")
M["std::vec::Vec::remove"] = _vrm("vrm")


@model("std::vec::Vec::insert")
def v_insert(cx, st, a, call):
    v = cx.load(st, a[0])
    cx.store(st, a[0], T("vins", v, a[1], a[2]))
    return R(st)


@model("std::vec::Vec::retain", "std::vec::Vec::retain_mut")
def v_retain(cx, st, a, call):
    v = cx.load(st, a[0])
    own = T("loc", "own%d" % cx.uid(), 0)
    acc = T("loc", "acc%d" % cx.uid(), 0)
    u = T("loc", "f%d" % cx.uid(), 0)
    st.store[own], st.store[acc], st.store[u] = v, T("vnew"), a[1]
    it = agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", own), I(0), vlen(v)))

    def step(s, x):
        w = T("loc", "tmp%d" % cx.uid(), 0)
        s = s.copy()
        s.store[w] = x
        out = []
        for k, s2, y in call_fnval(cx, s, T("ref", u), [T("ref", w)], call):
            if k != "ret":
                out.append((k, s2, y))
                continue
            for c, s3 in cx.branch(s2, y):
                s3 = s3.copy()
                x2 = s3.store.pop(w, x)
                if c:
                    s3.store[acc] = T("vpush", s3.store[acc], x2)
                out.append(("back", s3, None))
        return out

    def done(s):
        s = s.copy()
        cx.store(s, a[0], s.store[acc])
        return R(s)
    return consumer(cx, st, it, call, step, done, "retain")


@model("std::vec::Vec::append")
def v_append(cx, st, a, call):
    x = cx.load(st, a[1])
    cx.store(st, a[1], T("vnew"))
    own = T("loc", "own%d" % cx.uid(), 0)
    st.store[own] = x
    it = agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", own), I(0), vlen(x)))

    def step(s, y):
        s = s.copy()
        cx.store(s, a[0], T("vpush", cx.load(s, a[0]), y))
        return [("back", s, None)]
    return consumer(cx, st, it, call, step, lambda s: R(s), "append")


@model("std::vec::Vec::drain")
def v_drain(cx, st, a, call):
    if not (a[1].op == "agg" and a[1].args[0].endswith("RangeFull")):
        return None
    x = cx.load(st, a[0])
    cx.store(st, a[0], T("vnew"))
    own = T("loc", "own%d" % cx.uid(), 0)
    st.store[own] = x
    return R(st, agg("$it.own", 0, "$it.own", ("base", "pos", "end"), (T("ref", own), I(0), vlen(x))))


@model("slice::fill")
def s_fill(cx, st, a, call):
    cx.store(st, a[0], T("rep", a[1], vlen(cx.load(st, a[0]))))
    return R(st)


@model("std::vec::Vec::clear")
def v_clear(cx, st, a, call):
    cx.store(st, a[0], T("vnew"))
    return R(st)


@model("std::vec::Vec::truncate")
def v_truncate(cx, st, a, call):
    v = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, le(vlen(v), a[1])):
        s = s.copy()
        if not c:
            cx.store(s, a[0], T("slice", v, I(0), a[1]))
        out.append(("ret", s, UNIT))
    return out


@model("std::vec::Vec::resize_with", "std::vec::Vec::resize")
def v_resize(cx, st, a, call):
    v = cx.load(st, a[0])
    n = a[1]
    if call["info"]["name"] == "resize":
        res = [("ret", st, a[2])]
    else:
        res = call_fnval(cx, st, a[2], [], call)
    out = []
    for kind, s, x in res:
        if kind != "ret":
            out.append((kind, s, x))
            continue
        s = s.copy()
        cx.store(s, a[0], T("vresize", v, n, x))
        out.append(("ret", s, UNIT))
    return out


@model("std::vec::from_elem")
def v_from_elem(cx, st, a, call):
    return R(st, T("rep", a[0], a[1]))


@model("slice::get", "slice::get_mut")
def s_get(cx, st, a, call):
    v = cx.load(st, a[0])
    if a[1].op == "agg":
        return None
    out = []
    for c, s in cx.branch(st, lt(a[1], vlen(v))):
        out.append(("ret", s, some(cx.sub_ref(a[0], pi(a[1]))) if c else NONE))
    return out


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def s_getu(cx, st, a, call):
    v = cx.load(st, a[0])
    if a[1].op == "agg":
        return None
    if st.decide(lt(a[1], vlen(v))) is not True:
        st.ev("unchecked", v, a[1], call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st, cx.sub_ref(a[0], pi(a[1])))


def _ends(last):
    def f(cx, st, a, call):
        v = cx.load(st, a[0])
        out = []
        for c, s in cx.branch(st, le(I(1), vlen(v))):
            i = sub(vlen(v), I(1)) if last else I(0)
            out.append(("ret", s, some(cx.sub_ref(a[0], pi(i))) if c else NONE))
        return out
    return f


for _x in ("last", "last_mut"):
    M["slice::" + _x] = _ends(True)
for _x in ("first", "first_mut"):
    M["slice::" + _x] = _ends(False)


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def s_index(cx, st, a, call):
    ty = call["info"].get("self") or {}
    if (ty.get("path") or "").endswith("HashMap"):
        return m_index(cx, st, a, call)
    if ty.get("k") not in ("slice", "array") and ty.get("path") not in ("std::vec::Vec", "std::boxed::Box"):
        return None
    v = cx.load(st, a[0])
    i = a[1]
    if i.op == "agg":
        n = i.args[0]
        if n.endswith("RangeFull"):
            return R(st, a[0])
        if n.endswith("RangeToInclusive"):
            i = agg("std::ops::RangeTo", 0, "RangeTo", ("end",), (add(fld(i, "end"), I(1)),))
            n = "std::ops::RangeTo"
        lo = fld(i, "start") if not n.endswith("RangeTo") else I(0)
        hi = fld(i, "end") if not n.endswith("RangeFrom") else vlen(v)
        out = []
        for c, s in cx.branch(st, conj(le(lo, hi), le(hi, vlen(v)))):
            out.append(("ret", s, cx.sub_ref(a[0], T("pslice", lo, hi))) if c else PANIC(cx, s, call))
        return out
    out = []
    for c, s in cx.branch(st, lt(i, vlen(v))):
        out.append(("ret", s, cx.sub_ref(a[0], pi(i))) if c else PANIC(cx, s, call))
    return out


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains")
def range_contains(cx, st, a, call):
    r, x = cx.load(st, a[0]), cx.load(st, a[1])
    if r.op != "agg" or r.args[0] != "std::ops::Range":
        return None
    return R(st, conj(le(r.args[4], x), lt(x, r.args[5])))


@model("std::ops::RangeInclusive::new")
def range_incl(cx, st, a, call):
    return R(st, agg("std::ops::Range", 0, "Range", ("start", "end"), (a[0], add(a[1], I(1)))))


@model("slice::split_at_mut", "slice::split_at")
def s_split(cx, st, a, call):
    v = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, le(a[1], vlen(v))):
        if c:
            out.append(("ret", s, tup(cx.sub_ref(a[0], T("pslice", I(0), a[1])),
                                      cx.sub_ref(a[0], T("pslice", a[1], vlen(v))))))
        else:
            out.append(PANIC(cx, s, call))
    return out


@model("slice::split_first_mut", "slice::split_first", "slice::split_last", "slice::split_last_mut")
def s_splitf(cx, st, a, call):
    v = cx.load(st, a[0])
    n = vlen(v)
    last = "last" in call["info"]["name"]
    out = []
    for c, s in cx.branch(st, le(I(1), n)):
        if c:
            if last:
                x = tup(cx.sub_ref(a[0], pi(sub(n, I(1)))), cx.sub_ref(a[0], T("pslice", I(0), sub(n, I(1)))))
            else:
                x = tup(cx.sub_ref(a[0], pi(I(0))), cx.sub_ref(a[0], T("pslice", I(1), n)))
            out.append(("ret", s, some(x)))
        else:
            out.append(("ret", s, NONE))
    return out


@model("slice::swap")
def s_swap(cx, st, a, call):
    v = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, conj(lt(a[1], vlen(v)), lt(a[2], vlen(v)))):
        if not c:
            out.append(PANIC(cx, s, call))
            continue
        s = s.copy()
        x, y = vget(v, a[1], s), vget(v, a[2], s)
        cx.store(s, cx.sub_ref(a[0], pi(a[1])), y)
        cx.store(s, cx.sub_ref(a[0], pi(a[2])), x)
        out.append(("ret", s, UNIT))
    return out


@model("slice::copy_from_slice", "slice::clone_from_slice")
def s_copy_from(cx, st, a, call):
    r, p = cx.deref_ref(a[0])
    if any(e.op == "pslice" for e in p):
        return None
    d, v = cx.load(st, a[0]), cx.load(st, a[1])
    out = []
    for c, s in cx.branch(st, eq(vlen(d), vlen(v), True)):
        if not c:
            out.append(PANIC(cx, s, call))
            continue
        s = s.copy()
        cx.store(s, a[0], v)
        out.append(("ret", s, UNIT))
    return out


@model("slice::sort", "slice::sort_unstable")
def s_sort(cx, st, a, call):
    cx.store(st, a[0], T("vsorted", cx.load(st, a[0])))
    return R(st)


@model("slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key")
def s_sort_by(cx, st, a, call):
    v = cx.load(st, a[0])
    x, y = cx.fresh("cmpa"), cx.fresh("cmpb")
    ux, uy = T("loc", "s%d" % cx.uid(), 0), T("loc", "s%d" % cx.uid(), 1)
    s = st.copy()
    s.store[ux] = x
    s.store[uy] = y
    key = "key" in call["info"]["name"]
    try:
        if key:
            res = call_fnval(cx, s, a[1], [T("ref", ux)], call)
        else:
            res = call_fnval(cx, s, a[1], [T("ref", ux), T("ref", uy)], call)
        how = tuple(r[2] for r in res if r[0] == "ret")
        how = tuple(subst(h, {x: T("sym", "$a"), y: T("sym", "$b")}) for h in how)
    except (Unsupported, Budget):
        how = (cx.fresh("cmp"),)
    cx.store(st, a[0], T("vsortby", v, "key" if key else "cmp", how))
    return R(st)


@model("std::vec::Vec::dedup")
def v_dedup(cx, st, a, call):
    cx.store(st, a[0], T("vdedup", cx.load(st, a[0])))
    return R(st)


@model("slice::binary_search")
def s_bsearch(cx, st, a, call):
    v, o = cx.load(st, a[0]), cx.load(st, a[1])
    p = T("posof", v, o)
    out = []
    for c, s in cx.branch(st, contains_t(v, o)):
        if c:
            s = s.assume(lt(p, vlen(v)))
            if s is not None:
                s = s.assume(eq(vget(v, p, s), o))
            if s is not None:
                out.append(("ret", s, ok(p)))
        else:
            q = T("insof", v, o)
            s = s.assume(le(q, vlen(v)))
            if s is not None:
                out.append(("ret", s, err(q)))
    return out


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut")
def s_raw(cx, st, a, call):
    st.ev("rawslice", a[0], a[1], size_of(targ(call)), call["span"])
    u = T("loc", "raw%d" % cx.uid(), 0)
    st.store[u] = T("rawslice", a[0], a[1], tkey(targ(call)))
    return R(st, T("ref", u))


# ---------------------------------------------------------------- HashMap
def m_keyval(cx, st, k):
    return cx.load(st, k)


def m_known(cx, st, m, k):
    """Facts about an existing entry (installed by the rules)."""
    h = cx.hooks.get("map_entry")
    return h(cx, st, m, k) if h else st


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut")
def m_get(cx, st, a, call):
    m = cx.load(st, a[0])
    k = m_keyval(cx, st, a[1])
    out = []
    for c, s in cx.branch(st, mhas(m, k, st)):
        if c:
            s = m_known(cx, s, m, k)
            if s is not None:
                out.append(("ret", s, some(cx.sub_ref(a[0], pm(k)))))
        else:
            out.append(("ret", s, NONE))
    return out


def m_index(cx, st, a, call):
    m = cx.load(st, a[0])
    k = m_keyval(cx, st, a[1])
    out = []
    for c, s in cx.branch(st, mhas(m, k, st)):
        if c:
            s = m_known(cx, s, m, k)
            if s is not None:
                out.append(("ret", s, cx.sub_ref(a[0], pm(k))))
        else:
            out.append(PANIC(cx, s, call))
    return out


@model("std::collections::HashMap::contains_key", "std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def m_containskey(cx, st, a, call):
    return R(st, mhas(cx.load(st, a[0]), m_keyval(cx, st, a[1]), st))


@model("std::collections::HashMap::insert")
def m_insert(cx, st, a, call):
    m = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, mhas(m, a[1], st)):
        s = s.copy()
        old = mget(m, a[1], s) if c else None
        s.ev("minsert", a[0], a[1], a[2], c, call["span"])
        cx.store(s, a[0], T("mins", m, a[1], a[2]))
        out.append(("ret", s, some(old) if c else NONE))
    return out


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def h_insert(cx, st, a, call):
    out = []
    for kind, s, v in m_insert(cx, st, [a[0], a[1], UNIT], call):
        out.append((kind, s, FALSE if v.args[2] == "Some" else TRUE))
    return out


@model("std::collections::HashMap::remove")
def m_remove(cx, st, a, call):
    m = cx.load(st, a[0])
    k = m_keyval(cx, st, a[1])
    out = []
    for c, s in cx.branch(st, mhas(m, k, st)):
        s = s.copy()
        if c:
            x = mget(m, k, s)
            cx.store(s, a[0], T("mrem", m, k))
            out.append(("ret", s, some(x)))
        else:
            out.append(("ret", s, NONE))
    return out


@model("std::collections::HashMap::clear", "std::collections::HashSet::clear", "std::collections::BTreeSet::clear")
def m_clear(cx, st, a, call):
    cx.store(st, a[0], T("mnew"))
    return R(st)


@model("std::collections::HashMap::with_hasher", "std::collections::HashMap::with_capacity_and_hasher",
       "std::collections::HashMap::new", "std::collections::HashMap::with_capacity",
       "std::collections::HashSet::new", "std::collections::HashSet::with_capacity", "std::collections::BTreeSet::new",
       "std::collections::HashSet::with_hasher", "std::collections::HashSet::with_capacity_and_hasher")
def m_new(cx, st, a, call):
    return R(st, T("mnew"))


ENTRY = "std::collections::hash_map::Entry"


@model("std::collections::HashMap::entry")
def m_entry(cx, st, a, call):
    m = cx.load(st, a[0])
    out = []
    for c, s in cx.branch(st, mhas(m, a[1], st)):
        e = agg("$entry", 0, "$entry", ("map", "key"), (a[0], a[1]))
        if c:
            s = m_known(cx, s, m, a[1])
            if s is None:
                continue
        out.append(("ret", s, agg(ENTRY, 0 if c else 1, "Occupied" if c else "Vacant", ("0",), (e,))))
    return out


@model("std::collections::hash_map::VacantEntry::insert", "std::collections::hash_map::OccupiedEntry::insert")
def m_vinsert(cx, st, a, call):
    e = a[0]
    occ = "Occupied" in call["path"]
    if occ:
        e = cx.load(st, e)
    mr, k = fld(e, "map"), fld(e, "key")
    st.ev("minsert", mr, k, a[1], occ, call["span"])
    old = mget(cx.load(st, mr), k, st)
    cx.store(st, mr, T("mins", cx.load(st, mr), k, a[1]))
    return R(st, old if occ else cx.sub_ref(mr, pm(k)))


@model("std::collections::hash_map::OccupiedEntry::get", "std::collections::hash_map::OccupiedEntry::get_mut",
       "std::collections::hash_map::OccupiedEntry::into_mut")
def m_oget(cx, st, a, call):
    e = a[0]
    if e.op == "ref":
        e = cx.load(st, e)
    return R(st, cx.sub_ref(fld(e, "map"), pm(fld(e, "key"))))


@model("std::collections::hash_map::Entry::or_insert", "std::collections::hash_map::Entry::or_insert_with",
       "std::collections::hash_map::Entry::or_default")
def m_orins(cx, st, a, call):
    e = a[0]
    if e.op != "agg":
        return None
    p = e.args[4]
    mr, k = fld(p, "map"), fld(p, "key")
    if e.args[2] == "Occupied":
        return R(st, cx.sub_ref(mr, pm(k)))
    n = call["info"]["name"]
    if n == "or_insert":
        res = [("ret", st, a[1])]
    elif n == "or_insert_with":
        res = call_fnval(cx, st, a[1], [], call)
    else:
        return None
    out = []
    for kind, s, v in res:
        if kind == "ret":
            s = s.copy()
            s.ev("minsert", mr, k, v, False, call["span"])
            cx.store(s, mr, T("mins", cx.load(s, mr), k, v))
            out.append(("ret", s, cx.sub_ref(mr, pm(k))))
        else:
            out.append((kind, s, v))
    return out


# ---------------------------------------------------------------- clone / compare / numbers
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "slice::to_vec", "std::clone::Clone::clone_from")
def m_clone(cx, st, a, call):
    p = call["path"]
    if call["info"]["path"] == "std::clone::Clone::clone" and cx.prog.fns.get(call["key"]) is not None:
        return None
    if p.startswith("<std::option::Option") or p.startswith("<tuple"):
        return None if p.startswith("<std::option") else R(st, cx.load(st, a[0]))
    return R(st, cx.load(st, a[0]))


def _cmp_model(cx, st, a, call):
    n = call["info"]["name"]
    ty = call["info"].get("self") or {}
    x, y = a
    t = ty
    while t.get("k") == "ref":
        t = t["t"]
        x, y = cx.load(st, x), cx.load(st, y)
    if t.get("k") == "adt" and not t["path"].startswith("std::"):
        f = cx.find_impl("std::cmp::PartialEq", "eq", t)
        if f is not None:
            call2 = dict(call, path=f.path, key=f.key)
            info = {"path": f.path, "key": f.key, "name": "eq", "args": t.get("args", [])}
            res = cx.call_fn(call["fr"], st, info, [x, y], call["span"])
            if n == "ne":
                return [(k, s, neg(v) if k == "ret" else v) for k, s, v in res]
            return res
    x, y = cx.load(st, x), cx.load(st, y)
    if t.get("k") == "tuple" and t["ts"] and all(q.get("k") in ("uint", "int", "bool", "char") for q in t["ts"]):
        out, live = [], [st]
        for i, q in enumerate(t["ts"]):
            nxt = []
            for s0 in live:
                for c, s in cx.branch(s0, eq(fld(x, str(i)), fld(y, str(i)), q["k"] in ("uint", "int"))):
                    if c:
                        nxt.append(s)
                    else:
                        out.append(("ret", s, B(n != "eq")))
            live = nxt
        return out + [("ret", s, B(n == "eq")) for s in live]
    if t.get("k") == "adt" and t["path"] == "std::option::Option" and t.get("args") and t["args"][0].get("k") in ("uint", "int") and \
            st.variant(x) == "Some" and st.variant(y) == "Some":
        r = eq(vfld(x, "Some", "0"), vfld(y, "Some", "0"), True)
        return R(st, r if n == "eq" else neg(r))
    r = eq(x, y, t.get("k") in ("uint", "int"))
    return R(st, r if n == "eq" else neg(r))


M["std::cmp::PartialEq::eq"] = _cmp_model
M["std::cmp::PartialEq::ne"] = _cmp_model


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(cx, st, a, call):
    ty = call["info"].get("self") or {}
    t = ty
    x, y = a
    while t.get("k") == "ref":
        t = t["t"]
        x, y = cx.load(st, x), cx.load(st, y)
    if t.get("k") == "adt" and not t["path"].startswith("std::"):
        f = cx.find_impl("std::cmp::" + call["info"]["path"].split("::")[2], call["info"]["name"], t)
        if f is not None and cx.prog.fns.get(call["key"]) is None:
            info = {"path": f.path, "key": f.key, "name": call["info"]["name"], "args": t.get("args", [])}
            return cx.call_fn(call["fr"], st, info, [x, y], call["span"])
        return None
    r = T("cmp", cx.load(st, x), cx.load(st, y))
    return R(st, r if call["info"]["name"] == "cmp" else some(r))


ORD_SETS = {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal"), "eq": ("Equal",), "ne": ("Less", "Greater")}


def ord_test(st, o, n):
    """[(state, truth)] of asking an Ordering whether it is lt/le/..."""
    if o.op == "cmp":
        x, y = o.args
        if n in ("eq", "ne"):
            r = eq(x, y, True)
            return [(st, r if n == "eq" else neg(r))]
        return [(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[n])]
    var = st.variant(o)
    out = []
    for v in ("Less", "Equal", "Greater"):
        if var is not None and var != v:
            continue
        s = st if var == v else st.setvar(o, v)
        if s is not None:
            out.append((s, TRUE if v in ORD_SETS[n] else FALSE))
    return out


def _is(n):
    def f(cx, st, a, call):
        return [("ret", s, b) for s, b in ord_test(st, a[0], n)]
    return f


for _n in ORD_SETS:
    M["std::cmp::Ordering::is_" + _n] = _is(_n)


@model("std::cmp::Ordering::reverse")
def m_reverse(cx, st, a, call):
    o = a[0]
    if o.op == "cmp":
        return R(st, T("cmp", o.args[1], o.args[0]))
    return None


def _rel(n):
    def f(cx, st, a, call):
        t = call["info"].get("self") or {}
        x, y = a
        while t.get("k") == "ref":
            t = t["t"]
            x, y = cx.load(st, x), cx.load(st, y)
        if t.get("k") == "adt" and not t["path"].startswith("std::") and cx.prog.fns.get(call["key"]) is None:
            # the provided method: by the type's own partial_cmp
            g = cx.find_impl("std::cmp::PartialOrd", "partial_cmp", t)
            if g is None:
                return None
            info = {"path": g.path, "key": g.key, "name": "partial_cmp", "args": t.get("args", [])}
            out = []
            for k, s, v in cx.call_fn(call["fr"], st, info, [x, y], call["span"]):
                if k != "ret":
                    out.append((k, s, v))
                elif s.variant(v) == "None":
                    out.append(("ret", s, FALSE))
                else:
                    out += [("ret", s2, b) for s2, b in ord_test(s, vfld(v, "Some", "0"), n)]
            return out
        if t.get("k") not in ("uint", "int"):
            return None
        x, y = cx.load(st, x), cx.load(st, y)
        return R(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[n])
    return f


for _n in ("lt", "le", "gt", "ge"):
    M["std::cmp::PartialOrd::" + _n] = _rel(_n)


@model("std::cmp::Ordering::then_with")
def m_thenwith(cx, st, a, call):
    return None


def mn(op, x, y, st):
    d = st.decide(le(x, y))
    if d is not None:
        return (x if d else y) if op == "min" else (y if d else x)
    xs = set(x.args if x.op == op else (x,)) | set(y.args if y.op == op else (y,))
    return T(op, *sorted(xs, key=lambda t: t.id))


def minmax(op, x, y, st):
    """Two values known to differ: the order of the two is decided here, as a branch."""
    if st.decide(le(x, y)) is None and st.decide(eq(x, y, True)) is False:
        r = []
        for c in (True, False):
            s = st.assume(lt(x, y), c)
            if s is not None:
                r += R(s, (x if c else y) if op == "min" else (y if c else x))
        return r
    return R(st, mn(op, x, y, st))


@model("std::cmp::Ord::min", "std::cmp::min")
def m_min(cx, st, a, call):
    return minmax("min", a[0], a[1], st)


@model("std::cmp::Ord::max", "std::cmp::max")
def m_max(cx, st, a, call):
    return minmax("max", a[0], a[1], st)


for _t in BITS:
    M[_t + "::wrapping_add"] = lambda cx, st, a, c: R(st, T("wadd", a[0], a[1]))
    M[_t + "::wrapping_sub"] = lambda cx, st, a, c: R(st, T("wsub", a[0], a[1]))
    M[_t + "::trailing_zeros"] = lambda cx, st, a, c: R(st, T("trailing_zeros", a[0]))
    M[_t + "::count_ones"] = lambda cx, st, a, c: R(st, T("popcount", a[0]))
    M[_t + "::from_ne_bytes"] = lambda cx, st, a, c: R(st, T("from_bytes", "ne", a[0]))
    M[_t + "::from_le_bytes"] = lambda cx, st, a, c: R(st, T("from_bytes", "le", a[0]))
    M[_t + "::abs_diff"] = lambda cx, st, a, c: R(st, T("absdiff", a[0], a[1]))


def _sat(cx, st, a, call):
    out = []
    for c, s in cx.branch(st, le(a[1], a[0])):
        out.append(("ret", s, sub(a[0], a[1]) if c else I(0)))
    return out


def _satadd(cx, st, a, call):
    mx = I(2 ** BITS[call["path"].split("::")[0]] - 1)
    out = []
    for c, s in cx.branch(st, le(add(a[0], a[1]), mx)):
        out.append(("ret", s, add(a[0], a[1]) if c else mx))
    return out


def _chksub(cx, st, a, call):
    out = []
    for c, s in cx.branch(st, le(a[1], a[0])):
        out.append(("ret", s, some(sub(a[0], a[1])) if c else NONE))
    return out


def _chkadd(op):
    def f(cx, st, a, call):
        r = add(a[0], a[1]) if op == "add" else mul(a[0], a[1])
        mx = I(2 ** BITS[call["path"].split("::")[0]] - 1)
        out = []
        for c, s in cx.branch(st, le(r, mx)):
            out.append(("ret", s, some(r) if c else NONE))
        return out
    return f


def _satmul(cx, st, a, call):
    if call["path"].startswith("usize"):
        # sizes and counts: the product is taken not to overflow, like that of a plain multiplication
        return R(st, mul(a[0], a[1]))
    mx = I(2 ** BITS[call["path"].split("::")[0]] - 1)
    out = []
    for c, s in cx.branch(st, le(mul(a[0], a[1]), mx)):
        out.append(("ret", s, mul(a[0], a[1]) if c else mx))
    return out


def _chkdiv(op):
    def f(cx, st, a, call):
        out = []
        for c, s in cx.branch(st, eq(a[1], I(0), True)):
            out.append(("ret", s, NONE if c else some((div if op == "div" else rem)(a[0], a[1]))))
        return out
    return f


for _t in ("u32", "u64", "usize", "u8", "u16"):
    M[_t + "::saturating_mul"] = _satmul
    M[_t + "::checked_div"] = _chkdiv("div")
    M[_t + "::checked_rem"] = _chkdiv("rem")
    M[_t + "::is_multiple_of"] = lambda cx, st, a, c: R(st, eq(rem(a[0], a[1]), I(0), True))
    M[_t + "::leading_zeros"] = lambda cx, st, a, c: R(st, T("leading_zeros", a[0]))
    M[_t + "::wrapping_mul"] = lambda cx, st, a, c: R(st, T("wmul", a[0], a[1]))
    M[_t + "::saturating_sub"] = _sat
    M[_t + "::saturating_add"] = _satadd
    M[_t + "::checked_sub"] = _chksub
    M[_t + "::checked_add"] = _chkadd("add")
    M[_t + "::checked_mul"] = _chkadd("mul")
    M[_t + "::is_power_of_two"] = lambda cx, st, a, c: R(st, T("ispow2", a[0]))
    M[_t + "::next_power_of_two"] = lambda cx, st, a, c: R(st, T("nextpow2", a[0]))
    M[_t + "::div_ceil"] = lambda cx, st, a, c: R(st, div(sub(add(a[0], a[1]), I(1)), a[1])) if a[1].op == "int" and a[1].args[0] > 0 else None
    M[_t + "::next_multiple_of"] = lambda cx, st, a, c: R(st, mul(div(sub(add(a[0], a[1]), I(1)), a[1]), a[1])) if a[1].op == "int" and a[1].args[0] > 0 else None


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_try_into(cx, st, a, call):
    ta = call["args0"]
    frm, to = (ta[0], ta[1]) if call["info"]["name"] == "try_into" else (ta[1], ta[0])
    if frm.get("k") in ("uint", "int") and to.get("k") in ("uint", "int"):
        bits = BITS[to["n"]] - (1 if to["k"] == "int" else 0)
        out = []
        for c, s in cx.branch(st, le(a[0], I(2 ** bits - 1))):
            out.append(("ret", s, ok(a[0]) if c else err(UNIT)))
        return out
    box = to.get("k") == "adt" and to.get("path") == "std::boxed::Box" and to.get("args")
    arr = to["args"][0] if box else to
    if arr.get("k") == "array" and arr["n"].get("k") in ("const", "cparam"):
        v = cx.load(st, a[0]) if a[0].op == "ref" and not box else a[0]
        n = I(arr["n"]["v"]) if arr["n"]["k"] == "const" else T("cparam", arr["n"]["name"])
        out = []
        for c, s in cx.branch(st, eq(vlen(v), n, True)):
            if not c:
                out.append(("ret", s, err(UNIT)))
                continue
            if box:
                # a box that is about to be taken apart: its pointer designates a place holding the array
                s = s.copy()
                root = T("loc", cx.uid(), 0)
                s.store[root] = v
                out.append(("ret", s, ok(agg("std::boxed::Box", 0, "Box", ("0", "1"), (T("ref", root), UNIT)))))
            else:
                out.append(("ret", s, ok(v)))
        return out
    return None


# ---------------------------------------------------------------- memory
@model("std::mem::replace")
def m_replace(cx, st, a, call):
    old = cx.load(st, a[0])
    cx.store(st, a[0], a[1])
    return R(st, old)


@model("std::mem::swap")
def m_swap(cx, st, a, call):
    x, y = cx.load(st, a[0]), cx.load(st, a[1])
    cx.store(st, a[0], y)
    cx.store(st, a[1], x)
    return R(st)


@model("std::mem::take")
def m_take(cx, st, a, call):
    old = cx.load(st, a[0])
    t = targ(call)
    p = t.get("path", "")
    if p == "std::vec::Vec":
        new = T("vnew")
    elif p == "std::option::Option":
        new = NONE
    elif p.endswith("HashMap"):
        new = T("mnew")
    elif t.get("k") == "uint":
        new = I(0)
    else:
        return None
    cx.store(st, a[0], new)
    return R(st, old)


@model("std::mem::forget", "std::mem::drop")
def m_forget(cx, st, a, call):
    st.ev("forget" if call["info"]["name"] == "forget" else "drop", tkey(targ(call)), a[0], call["span"],
          call["fr"].fn.path if call["fr"] else "")
    return R(st)


@model("std::mem::size_of")
def m_size_of(cx, st, a, call):
    return R(st, size_of(targ(call)))


@model("std::mem::align_of")
def m_align_of(cx, st, a, call):
    return R(st, align_of(targ(call)))


@model("std::mem::needs_drop")
def m_needs_drop(cx, st, a, call):
    return R(st, T("needs_drop", tkey(targ(call))))


@model("std::mem::MaybeUninit::uninit", "std::mem::MaybeUninit::zeroed", "std::boxed::Box::new_uninit")
def m_uninit(cx, st, a, call):
    if call["info"]["name"] == "new_uninit":
        u = T("loc", "box%d" % cx.uid(), 0)
        st.store[u] = UNDEF
        return R(st, agg("std::boxed::Box", 0, "Box", ("0",), (T("ref", u),)))
    t = targ(call)
    if t.get("k") == "array":
        n = t["n"]
        return R(st, T("rep", T("uninit"), I(n["v"]) if n["k"] == "const" else T("cparam", n["name"])))
    return R(st, T("uninit"))


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::alloc::box_assume_init_into_vec_unsafe")
def m_box_vec(cx, st, a, call):
    v = a[0]
    if v.op == "agg" and v.args[0] == "std::boxed::Box" and v.args[4].op == "ref":
        v = cx.load(st, v.args[4])
        while v.op == "with":
            v = fld(v, "value")
    return R(st, v)


@model("std::mem::MaybeUninit::uninit_array")
def m_uninit_array(cx, st, a, call):
    return None


@model("std::mem::MaybeUninit::write")
def m_muwrite(cx, st, a, call):
    cx.store(st, a[0], a[1])
    return R(st, a[0])


LAY = "std::alloc::Layout"


def layout(size, align):
    return agg(LAY, 0, "Layout", ("size", "align"), (size, align))


@model("std::alloc::Layout::new")
def m_lay_new(cx, st, a, call):
    return R(st, layout(size_of(targ(call)), align_of(targ(call))))


@model("std::alloc::Layout::size")
def m_lay_size(cx, st, a, call):
    return R(st, fld(cx.load(st, a[0]), "size"))


@model("std::alloc::Layout::align")
def m_lay_align(cx, st, a, call):
    return R(st, fld(cx.load(st, a[0]), "align"))


@model("std::alloc::Layout::pad_to_align")
def m_lay_pad(cx, st, a, call):
    l = cx.load(st, a[0])
    z, al = fld(l, "size"), fld(l, "align")
    if z.op == "sizeof" and al.op == "alignof" and z.args == al.args:
        return R(st, layout(z, al))
    r = T("roundup", z, al)
    st = st.assume(le(z, r))
    return R(st, layout(r, al)) if st is not None else []


@model("std::mem::size_of_val", "std::mem::align_of_val", "std::alloc::Layout::for_value")
def m_size_val(cx, st, a, call):
    t = targ(call)
    k = t.get("k")
    n = call["info"]["name"]
    if k in ("slice", "str", "dyn", "dynamic", "param", "other", "?"):
        if k != "slice" or n == "align_of_val":
            return None
        z, al = mul(vlen(cx.load(st, a[0])), size_of(t["t"])), align_of(t["t"])
    else:
        z, al = size_of(t), align_of(t)
    return R(st, z if n == "size_of_val" else al if n == "align_of_val" else layout(z, al))


@model("std::alloc::Layout::from_size_align")
def m_lay_fsa(cx, st, a, call):
    f = T("layok", a[0], a[1])
    out = []
    for c, s in cx.branch(st, f):
        out.append(("ret", s, ok(layout(a[0], a[1])) if c else err(UNIT)))
    return out


@model("std::alloc::Layout::from_size_align_unchecked")
def m_lay_fsau(cx, st, a, call):
    return R(st, layout(a[0], a[1]))


@model("std::alloc::Layout::array")
def m_lay_array(cx, st, a, call):
    l = layout(mul(size_of(targ(call)), a[0]), align_of(targ(call)))
    return [("ret", st, ok(l)), ("ret", st.copy(), err(UNIT))]


@model("std::alloc::alloc", "std::alloc::alloc_zeroed")
def m_alloc(cx, st, a, call):
    p = cx.fresh("mem")
    st.ev("alloc", p, a[0], call["span"], call["fr"].fn.path)
    return R(st, p)


@model("std::alloc::realloc")
def m_realloc(cx, st, a, call):
    p = cx.fresh("mem")
    st.ev("realloc", p, a[0], a[1], a[2], call["span"], call["fr"].fn.path)
    return R(st, p)


@model("std::alloc::dealloc")
def m_dealloc(cx, st, a, call):
    st.ev("dealloc", a[0], a[1], call["span"], call["fr"].fn.path)
    return R(st)


@model("std::ptr::NonNull::new")
def m_nn_new(cx, st, a, call):
    out = []
    for c, s in cx.branch(st, T("isnull", a[0])):
        out.append(("ret", s, NONE if c else some(a[0])))
    return out


@model("*mut::is_null", "*const::is_null")
def m_is_null(cx, st, a, call):
    return R(st, T("isnull", a[0]))


@model("std::ptr::NonNull::dangling")
def m_dangling(cx, st, a, call):
    return R(st, T("dangling", align_of(targ(call))))


@model("std::ptr::without_provenance_mut", "std::ptr::without_provenance", "std::ptr::dangling", "std::ptr::dangling_mut")
def m_noprov(cx, st, a, call):
    return R(st, T("ptrint", a[0]) if a else T("dangling", align_of(targ(call))))


@model("std::ptr::null_mut", "std::ptr::null")
def m_null(cx, st, a, call):
    return R(st, T("null"))


def _padd(sign, scaled=True):
    def f(cx, st, a, call):
        sz = size_of(targ(call)) if scaled else I(1)
        if scaled and a[0].op == "ref" and sz.op == "sizeof":
            # a pointer into one of the world's lists, moved by elements
            b = a[0].args
            k = a[1] if sign > 0 else scale(a[1], -1)
            if b[-1].op == "pf" and b[-1].args[0] in LISTS:
                return R(st, T("ref", *b, pi(k)))
            if len(b) > 2 and b[-1].op == "pi" and b[-2].op == "pf" and b[-2].args[0] in LISTS:
                return R(st, T("ref", *b[:-1], pi(add(b[-1].args[0], k))))
        off = mul(a[1], sz)
        return R(st, cx.padd(a[0], off if sign > 0 else scale(off, -1)))
    return f


for _p in ("*mut::", "*const::", "std::ptr::NonNull::"):
    for _n in ("add", "offset", "wrapping_add", "wrapping_offset"):
        M[_p + _n] = _padd(1)
    for _n in ("sub", "wrapping_sub"):
        M[_p + _n] = _padd(-1)
    for _n in ("byte_add", "byte_offset"):
        M[_p + _n] = _padd(1, False)


def mem_read(cx, st, p, ty, call, what="read"):
    st.ev("memread", p, size_of(ty), tkey(ty), call["span"], call["fr"].fn.path if call["fr"] else "")
    if p.op == "ref":
        return cx.load(st, p)
    return T("memval", p, tkey(ty))


@model("std::ptr::eq", "std::ptr::addr_eq")
def m_ptr_eq(cx, st, a, call):
    x, y = a
    if x is y:
        return R(st, TRUE)
    if x.op == "ref" and y.op == "ref" and x.args[:-1] == y.args[:-1] and x.args[-1].op == "pi" and y.args[-1].op == "pi":
        # elements of one slice (of values that take up space)
        return R(st, eq(x.args[-1].args[0], y.args[-1].args[0], True))
    return R(st, T("eq", *sorted((x, y), key=lambda t: t.id)))


@model("std::ptr::read", "*mut::read", "*const::read", "std::ptr::NonNull::read", "std::ptr::NonNull::read_unaligned", "std::ptr::read_unaligned", "*const::read_unaligned", "*mut::read_unaligned")
def m_read(cx, st, a, call):
    return R(st, mem_read(cx, st, a[0], targ(call), call))


@model("std::ptr::write", "*mut::write", "std::ptr::write_unaligned", "*mut::write_unaligned", "std::ptr::NonNull::write",
       "std::ptr::NonNull::write_unaligned")
def m_write(cx, st, a, call):
    p = a[0]
    if p.op == "ref":
        cx.store(st, p, a[1])
    else:
        st.ev("memwrite", p, size_of(targ(call)), a[1], call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st)


@model("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy")
def m_copy(cx, st, a, call):
    st.ev("copy", call["info"]["name"], a[0], a[1], mul(a[2], size_of(targ(call))), call["span"],
          call["fr"].fn.path if call["fr"] else "")
    return R(st)


def _copy_m(to):
    def f(cx, st, a, call):
        n = "copy_nonoverlapping" if "nonoverlapping" in call["info"]["name"] else "copy"
        s, d = (a[0], a[1]) if to else (a[1], a[0])
        st.ev("copy", n, s, d, mul(a[2], size_of(targ(call))), call["span"], call["fr"].fn.path if call["fr"] else "")
        return R(st)
    return f


for _p in ("*mut::", "*const::", "std::ptr::NonNull::"):
    M[_p + "copy_to"] = M[_p + "copy_to_nonoverlapping"] = _copy_m(True)
    M[_p + "copy_from"] = M[_p + "copy_from_nonoverlapping"] = _copy_m(False)


@model("std::ptr::swap", "*mut::swap", "std::ptr::NonNull::swap")
def m_pswap(cx, st, a, call):
    if a[0].op == "ref" and a[1].op == "ref":
        return m_swap(cx, st, a, call)
    st.ev("swapmem", a[0], a[1], size_of(targ(call)), call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st)


@model("std::ptr::replace", "*mut::replace", "std::ptr::NonNull::replace")
def m_preplace(cx, st, a, call):
    old = mem_read(cx, st, a[0], targ(call), call)
    m_write(cx, st, a, call)
    return R(st, old)


@model("std::ptr::write_bytes", "*mut::write_bytes", "std::ptr::NonNull::write_bytes")
def m_wbytes(cx, st, a, call):
    if a[0].op == "ref":
        return None
    st.ev("memwrite", a[0], mul(a[2], size_of(targ(call))), T("bytes", a[1]), call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st)


@model("std::ptr::swap_nonoverlapping")
def m_swapn(cx, st, a, call):
    st.ev("swapmem", a[0], a[1], mul(a[2], size_of(targ(call))), call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st)


@model("std::ptr::drop_in_place", "*mut::drop_in_place", "std::ptr::NonNull::drop_in_place")
def m_dip(cx, st, a, call):
    st.ev("dropinplace", a[0], tkey(targ(call)), call["span"], call["fr"].fn.path if call["fr"] else "")
    return R(st)


# ---------------------------------------------------------------- misc
@model("std::any::TypeId::of")
def m_typeid(cx, st, a, call):
    return R(st, T("typeid", tkey(targ(call))))


@model("std::sync::RwLock::new", "std::sync::Mutex::new", "std::cell::RefCell::new", "std::cell::Cell::new")
def m_lock_new(cx, st, a, call):
    return R(st, T("lock", call["info"]["path"].split("::")[2], a[0]))


def _lock(mode, blocking):
    def f(cx, st, a, call):
        g = T("guard", mode, a[0])
        s2 = st.copy()
        st.ev("lock", mode, blocking, a[0], call["span"], call["fr"].fn.path if call["fr"] else "", True)
        s2.ev("lock", mode, blocking, a[0], call["span"], call["fr"].fn.path if call["fr"] else "", False)
        return [("ret", st, ok(g)), ("ret", s2, err(T("lockerr", g)))]
    return f


def _lockerr(t):
    while t.op in ("fld", "as", "variant"):
        t = t.args[0]
    return t.args[0] if t.op == "lockerr" else None


@model("std::sync::PoisonError::into_inner", "std::sync::PoisonError::get_ref", "std::sync::PoisonError::get_mut")
def m_poison(cx, st, a, call):
    """A poisoned lock is held all the same: its guard is inside the error."""
    g = _lockerr(a[0] if call["path"].endswith("into_inner") else cx.load(st, a[0]))
    if g is None or not call["path"].endswith("into_inner"):
        return None
    st.ev("lock", g.args[0], False, g.args[1], call["span"], call["fr"].fn.path if call["fr"] else "", True)
    return R(st, g)


for _m in ("read", "write"):
    M["std::sync::RwLock::" + _m] = _lock(_m, True)
    M["std::sync::RwLock::try_" + _m] = _lock(_m, False)
M["std::sync::Mutex::lock"] = _lock("write", True)
M["std::sync::Mutex::try_lock"] = _lock("write", False)


PANICS = """core::panicking::panic core::panicking::panic_fmt core::panicking::todo_default_msg std::rt::begin_panic
std::alloc::handle_alloc_error std::option::expect_failed std::option::unwrap_failed std::result::unwrap_failed
core::panicking::panic_display core::panicking::assert_failed core::panicking::unreachable_display""".split()


def m_panic(cx, st, a, call):
    return [PANIC(cx, st, call)]


for _n in PANICS:
    M[_n] = m_panic


def m_opaque(cx, st, a, call):
    return R(st, T("fmt", cx.fresh("f")))


for _n in """core::fmt::rt::Argument::new_display core::fmt::rt::Argument::new_debug core::fmt::rt::Argument::new_upper_hex
std::fmt::Arguments::from_str_nonconst std::fmt::Arguments::new std::fmt::Arguments::from_str std::fmt::Formatter::write_fmt
std::fmt::Formatter::debug_struct_field2_finish std::fmt::Formatter::debug_tuple_field1_finish
std::fmt::Formatter::debug_tuple_field2_finish std::any::type_name std::fmt::format
std::string::ToString::to_string std::fmt::Arguments::new_const std::fmt::Arguments::new_v1""".split():
    M[_n] = m_opaque


@model("std::iter::Iterator::size_hint")
def m_sizehint(cx, st, a, call):
    return R(st, T("fmt", cx.fresh("f")))


@model("std::hash::Hash::hash")
def m_hash(cx, st, a, call):
    ty = call["info"].get("self") or {}
    if ty.get("k") in ("uint", "int"):
        st.ev("hash", cx.load(st, a[0]), a[1], call["span"])
        return R(st)
    return None


for _t in ("u8", "u16", "u32", "u64", "usize"):
    def _hw(cx, st, a, call):
        st.ev("hash", a[1], a[0], call["span"])
        return R(st)
    M["std::hash::Hasher::write_" + _t] = _hw


def _true(cx, st, a, call):
    return R(st, TRUE)


@model("std::intrinsics::size_of")
def m_isz(cx, st, a, call):
    return R(st, size_of(targ(call)))


# ---------------------------------------------------------------- operators on references to numbers
def _operator(op, assign):
    def f(cx, st, a, call):
        ts = [x for x in call["args0"] if isinstance(x, dict)]
        t = call["info"].get("self") or (ts[0] if ts else {})
        if len(a) != 2:
            return None
        x, y = a
        while t.get("k") == "ref":
            t = t["t"]
            x = cx.load(st, x)
        if t.get("k") not in ("uint", "int", "bool"):
            return None
        u = ts[1] if len(ts) > 1 else t
        while u.get("k") == "ref":
            u = u["t"]
            y = cx.load(st, y)
        if u.get("k") not in ("uint", "int", "bool"):
            return None
        if assign:
            v = cx.binop(st, op, cx.load(st, x), y, t, call["span"])
            cx.store(st, x, v)
            return R(st, UNIT)
        return R(st, cx.binop(st, op, x, y, t, call["span"]))
    return f


for _t, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("BitAnd", "bitand"),
               ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Shl", "shl"), ("Shr", "shr")):
    M["std::ops::%s::%s" % (_t, _m)] = _operator(_t, False)
    M["std::ops::%sAssign::%s_assign" % (_t, _m)] = _operator(_t, True)


@model("std::ops::Not::not")
def op_not(cx, st, a, call):
    t = call["info"].get("self") or {}
    x = a[0]
    while t.get("k") == "ref":
        t = t["t"]
        x = cx.load(st, x)
    if t.get("k") == "bool":
        return R(st, neg(x))
    if t.get("k") != "uint":
        return None
    return R(st, I(~x.args[0] & (2 ** 64 - 1)) if x.op == "int" else T("bnot", x))
