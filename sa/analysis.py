"""Analysis roots and the vocabulary the rules are written in."""
from .bounds import *


class Obl:
    """One obligation: a rule instance at a construct."""
    __slots__ = ("rule", "where", "status", "detail")

    def __init__(self, rule, where, status, detail):
        self.rule = rule
        self.where = where
        self.status = status      # ok | bad | undecided
        self.detail = detail


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obls = []
        self.notes = []
        self.functions = set()
        self.paths = 0

    def ok(self, rule, where, detail=""):
        self.obls.append(Obl(rule, where, "ok", detail))

    def bad(self, rule, where, detail):
        self.obls.append(Obl(rule, where, "bad", detail))

    def und(self, rule, where, detail):
        self.obls.append(Obl(rule, where, "undecided", detail))

    def check(self, cond, rule, where, detail, undecided=False):
        """cond True -> ok; False -> bad (or undecided)"""
        if cond:
            self.ok(rule, where)
        elif undecided:
            self.und(rule, where, detail)
        else:
            self.bad(rule, where, detail)
        return cond


class Root:
    def __init__(self, cx, res, fn, args):
        self.cx, self.res, self.fn, self.args = cx, res, fn, args

    def rets(self):
        return [(s, v) for k, s, v in self.res if k == "ret"]

    def panics(self):
        return [(s, v) for k, s, v in self.res if k == "panic"]


class Analysis:
    def __init__(self, dumps):
        self.prog = Program(dumps)
        self.cache = {}
        self.errors = {}
        self.seen = {}          # root -> number of abstract paths, as used since last cleared

    def has(self, path):
        return path in self.prog.bypath

    def root(self, path, inline=(), facts=None, args=None, sub=None, key=None, fn=None, bounds=None, tag="", maxstates=None, unwind=False):
        """Abstract results of a function on arbitrary arguments; `inline` names boundary functions to look into."""
        ck = (path, tuple(inline), key, tag, unwind)
        if ck in self.cache:
            return self._note(path, ck)
        f = fn or (self.prog.fns[key] if key else self.prog.get(path))
        if f is None:
            self.errors[path] = "not found"
            return None
        b = {k: v for k, v in (bounds if bounds is not None else B_).items() if k != path and k not in inline}
        cx = Ctx(self.prog, M, b)
        cx.hooks["map_entry"] = map_entry_fact
        cx.hooks["unwind"] = unwind
        if maxstates:
            cx.MAXSTATES = maxstates
        st = State()
        n = f.body["argc"]
        if args is None:
            args = [T("sym", "arg%d" % i) for i in range(1, n + 1)]
        if facts:
            st = facts(cx, st, args) or st
        try:
            res = cx.exec_body(f, args, sub or {}, st)
            r = Root(cx, res, f, args)
        except (Unsupported, Budget, RecursionError) as e:
            self.errors[path] = "%s: %s" % (type(e).__name__, e)
            r = None
        self.cache[ck] = r
        return self._note(path, ck)

    def _note(self, path, ck):
        r = self.cache[ck]
        if r is not None:
            self.seen[ck] = (path, len(r.res))
        return r


# ---------------------------------------------------------------- reference patterns
def refpath(r):
    """(root, path tuple) of a reference value, or (None, ())"""
    if r.op == "ref":
        return r.args[0], r.args[1:]
    return T("obj", r), ()


def colref(r):
    """A reference into a column of a group: (root, G, C) for  root.archetypes[G].component_storages[C].1"""
    root, p = refpath(r)
    if len(p) >= 4 and p[0] is pf("archetypes") and p[1].op == "pi" and p[2] is pf("component_storages") and p[3].op == "pi":
        return root, p[1].args[0], p[3].args[0]
    if len(p) >= 2 and p[0] is pf("component_storages") and p[1].op == "pi":
        return root, None, p[1].args[0]
    return None


def is_path(p, *pat):
    """Match a path against a pattern of field names and '[]' (index); returns the list of index terms or None."""
    if len(p) != len(pat):
        return None
    return prefix(p, *pat)


def prefix(p, *pat):
    out = []
    if len(p) < len(pat):
        return None
    for e, q in zip(p, pat):
        if q == "[]":
            if e.op != "pi":
                return None
            out.append(e.args[0])
        elif e is not pf(q):
            return None
    return out


def uidx(e):
    return fld(fld(e, "1"), "0")


def sources(cx, t, seen=None):
    """The values a loop-carried term can stand for: [(state, value)] (its initial value and what iterations store)."""
    if seen is None:
        seen = set()
    if t.op != "lv" or t in seen or t not in cx.lvs:
        return []
    seen.add(t)
    L, pos = cx.lvs[t]
    out = []
    cands = [(L.init, cx.read(L.init, pos[0], pos[1]))] + [(s, cx.read(s, pos[0], pos[1])) for s, _ in L.iters]
    for s, v in cands:
        if v.op == "lv":
            out += sources(cx, v, seen)
        else:
            out.append((s, v))
    return out


def strip_lv(t):
    """lv(...).Some.0 -> (lv, 'Some.0')"""
    fs = []
    while t.op == "fld":
        fs.append(t.args[1])
        t = t.args[0]
    return t, tuple(reversed(fs))


def values_of(cx, st, t):
    """[(state, value)] alternatives for a term that may be loop-carried; the term itself otherwise."""
    base, fs = strip_lv(t)
    if base.op != "lv":
        return [(st, t)]
    out = []
    for s, v in sources(cx, base):
        cur = v
        okk = True
        for f in fs:
            if "." in f:
                vn, fn_ = f.split(".")
                var = s.variant(cur)
                if var is not None and var != vn:
                    okk = False
                    break
                cur = vfld(cur, vn, fn_)
            else:
                cur = fld(cur, f)
        if okk:
            out.append((s, cur))
    return out


def walk_events(cx, events, depth=0):
    """Events in order; loops give ('loop', lid) markers followed by nothing (iterations are visited separately)."""
    for e in events:
        yield e


def loop_ids(events):
    return [e[1] for e in events if e[0] == "loop"]


def all_events(cx, events, seen=None):
    """All events including those of loop iterations: (event, loop chain)."""
    if seen is None:
        seen = ()
    for e in events:
        if e[0] == "loop":
            L = cx.loops.get(e[1])
            if L is None or e[1] in seen:
                continue
            for s, _ in L.iters:
                yield from all_events(cx, L.events(s), seen + (e[1],))
        else:
            yield e, seen


def tainted(cx, events, root=None):
    """Did an unknown function run on this path?"""
    for e, _ in all_events(cx, events):
        if e[0] in ("unknown",):
            return True
    return False


def wh(fn, e=None):
    """Construct named in a report: function plus source line of the event."""
    if e is None:
        return fn
    for x in e:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], str):
            return "%s (%s)" % (x[1], x[0])
    strs = [x for x in e[1:] if isinstance(x, str) and ".rs:" in x]
    return "%s (%s)" % (fn, strs[0]) if strs else fn


def short(t, n=160):
    s = show(t) if isinstance(t, Term) else str(t)
    s = s.replace("@arg1.", "").replace("@fld(arg1, world).", "world.")
    return s if len(s) <= n else s[:n] + "…"
