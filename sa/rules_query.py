"""Rules about queries: what they visit (C11), what their items refer to (C12), which locks they hold (C13)."""
from .ops import *
from .nums import differ
from .rules_basic import ID
from .rules_groups import bit_source, elements, identity_fn

RULES = {}
WD = "arche_tape::world::World::"
SQ = "arche_tape::static_query::"
DQ = "arche_tape::dyn_query::"
QP = SQ + "QueryParam::"


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


# ---------------------------------------------------------------- roots
def lifetimes_off(g):
    return [x for x in (g or []) if not x.startswith("'")]


PATTERNS = ("Mut", "Immut", "EcsId", "Mut Immut", "Immut EcsId", "EcsId Mut Mut", "Immut Mut EcsId EcsId")


def pattern_facts(kind, g, pat):
    """Facts that fix which access each parameter of a wide query asks for."""
    pat = pat.split()

    def facts(cx, st, args):
        for n, X in enumerate(g):
            if kind == "new":
                t = T("tcall", QP + "fetch_type", X, args[0])
                st = st.setvar(t, "Some")
                F = vfld(t, "Some", "0")
            else:
                t = fld(T("at", args[0]), "fetches")
                st = st.setvar(t, "Some")
                F = vget(vfld(t, "Some", "0"), I(n))
            st = st.setvar(F, pat[n % len(pat)])
        return st
    return facts


def roots(an, rep, path, wide=None):
    """Roots of every instance of a function the query macro generates, with the names of its query parameters.  For more than
    five parameters the combinations of accesses of `wide` functions are sampled by patterns, below that all are explored."""
    n = 0
    for k, f in sorted(an.prog.fns.items(), key=lambda x: len(lifetimes_off(x[1].d.get("generics")))):
        if f.body is None or f.path != path:
            continue
        g = lifetimes_off(f.d.get("generics"))
        where = "%s (%s)" % (path, ", ".join(g)) if g else path
        if wide and len(g) > 5:
            rs = [an.root(f.path, key=k, tag=p, facts=pattern_facts(wide, g, p)) for p in PATTERNS]
        else:
            rs = [an.root(f.path, key=k)]
        for r in rs:
            n += 1
            if r is None:
                rep.und("root", where, "not analysed: %s" % an.errors.get(path))
                continue
            rep.functions.add(where)
            rep.paths += len(r.res)
            yield r, g, where
    if n == 0:
        rep.und("root", path, "not found")


def agg_field(v, name):
    if v.op == "agg" and name in v.args[3]:
        return v.args[4 + v.args[3].index(name)]
    return None


def find_agg(v, name):
    for t in subterms(v):
        if t.op == "agg" and isinstance(t.args[0], str) and t.args[0].split("::")[-1] == name:
            return t
    return None


def world_of(w):
    """Is w a value denoting the world of a query: @world, or through a query's reference to it."""
    return w


# ---------------------------------------------------------------- arrays filled by loops
class Arr:
    """Contents of an array at an arbitrary position K: alternatives per iteration of the loop that fills it."""
    __slots__ = ("L", "K", "alts", "full", "why", "und", "init")


def reached_all(s, K, lens=()):
    """Do the facts of s say that the counter K has reached the length of the array(s)?"""
    for p in s.ints:
        c, m = parts(p)
        if c != 0 or m.get(K) != -1:
            continue
        rest = [(a, k) for a, k in m.items() if a is not K]
        if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].op in ("cparam", "vlen"):
            return True
    return False


def arr(cx, s, t):
    """Arr for an array term that a loop of the path has filled; None when it is not of that form."""
    if t.op == "vcomp" and t.args[0].op == "vnew":
        # built by appending, one element per iteration
        els = elements(cx, t)
        if els is None or len(els) != 1 or els[0][0] != "gen":
            return None
        a = Arr()
        a.L, a.alts, a.full, a.why, a.und, a.init, a.K = els[0][1], [], True, "", False, t.args[0], T("K", t.args[1])
        if any(len(xs) != 1 for _, xs in els[0][2]):
            return None
        a.alts = [(st, xs[0]) for st, xs in els[0][2]]
        if not reached_all(s, a.K):
            a.full, a.why = False, "not every position is visited"
        return a
    if t.op == "rep":
        # the same value everywhere
        a = Arr()
        a.L, a.alts, a.full, a.why, a.und, a.init, a.K = None, [(s, t.args[0])], True, "", False, t, cx.fresh("pos")
        return a
    if t.op != "lv" or t not in cx.lvs:
        return None
    L, pos = cx.lvs[t]
    a = Arr()
    a.L, a.alts, a.full, a.why, a.und = L, [], True, "", False
    a.init = cx.read(L.init, pos[0], pos[1])
    K = T("K", t.args[0])
    if not any(contains(hv, K) for hv in L.vals.values()):
        return None
    a.K = K
    seq = []
    for st, _ in L.iters:
        v = cx.read(st, pos[0], pos[1])
        b, n = v, 0
        J = K
        if b.op == "vset" and b.args[0] is t and contains(b.args[1], K):
            J = b.args[1]
        while b.op == "vset" and b.args[1] is J:
            b = b.args[0]
        if b is not t or a.K not in (K, J):
            return None          # other positions are written as well
        if J is not K:
            d = sub(J, K)
            if d.op == "int" and a.init.op in ("rep", "agg"):
                a.full, a.why = False, "positions are passed over"
            elif contains(add(J, K), K):
                return None
            a.K = J
        x = vget(v, J, st)
        cur = T("vget", t, J)
        if contains(x, cur):
            x = norm(st, subst(x, {cur: vget(a.init, J, st)}))
        a.alts.append((st, x))
        seq.append((st, K))
    en = enum_positions(cx, L, seq)
    if not a.full:
        pass
    elif not en.ok:
        a.full, a.why, a.und = False, en.why, en.und
    elif en.skips:
        a.full, a.why = False, "positions are passed over"
    else:
        # left before the end?
        if not reached_all(s, K):
            a.full, a.why = False, "not every position is visited"
    return a


def fetch_id(st, F):
    """(variant, id term) of a fetch under the facts of st."""
    var = st.variant(F)
    if var in ("Mut", "Immut"):
        return var, vfld(F, var, "0")
    return var, None


# ---------------------------------------------------------------- parameters
def param_impls(an, rep, name):
    n = 0
    for k, f in an.prog.fns.items():
        d = f.d
        if d.get("trait") == SQ + "QueryParam" and d.get("name") == name and f.body is not None:
            r = an.root(f.path, key=k)
            where = f.path
            if r is None:
                rep.und("root", where, "not analysed: %s" % an.errors.get(f.path))
                continue
            n += 1
            rep.functions.add(where)
            rep.paths += len(r.res)
            st = d["selfty"]
            kind = None
            if st["k"] == "ref":
                kind = "Mut" if st["mut"] else "Immut"
            elif st["k"] == "adt" and st["path"].endswith("EcsIds"):
                kind = "EcsId"
            yield r, kind, where, st
    if n == 0:
        rep.und("root", QP + name, "not found")


def has_fact(s, pred):
    return any(pred(f, v) for f, v in s.bools.items())


def map_named(m, name):
    return m.op == "fld" and m.args[1] == name


@rule("C11", "C13")
def fetch_types(an, rep):
    """A parameter asks for the component of its own type, mutably exactly when it yields mutable references."""
    new_missing = panics_on(an, SQ + "StaticQuery::new", lambda f, v: v is False and f.op == "has" and map_named(f.args[0], "lock_lookup"))
    iter_missing = panics_on(an, SQ + "StaticQuery::iter", lambda f, v: v is False and f.op == "hasbits")
    for r, kind, where, sty in param_impls(an, rep, "fetch_type"):
        cx = r.cx
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("fetch-type", where, "an unknown function runs on this path")
                continue
            var = s.variant(v)
            if var == "None":
                missing = has_fact(s, lambda f, b: b is False and f.op == "has" and f.args[0].op == "fld" and
                                   f.args[0].args[1] in ("type_id_to_ecs_id", "lock_lookup")) or has_fact(s, lambda f, b: b is False and f.op == "hasbits")
                if kind == "EcsId":
                    rep.bad("fetch-type", where, "handles are reported as unknown to the world")
                else:
                    rep.check(missing, "fetch-type", where, "a component the world knows is reported as unknown")
                continue
            if var != "Some":
                rep.und("fetch-type", where, "result not recognised: %s" % short(v, 80))
                continue
            F = vfld(v, "Some", "0")
            fv, idt = fetch_id(s, F)
            if fv is None:
                rep.und("fetch-type", where, "fetch not recognised: %s" % short(F, 80))
                continue
            if kind is None:
                rep.und("fetch-type", where, "parameter type not known")
                continue
            if fv != kind:
                rep.bad("fetch-type", where, "the parameter yields %s but asks for %s access" % (
                    {"Mut": "mutable references", "Immut": "shared references", "EcsId": "handles"}[kind],
                    {"Mut": "mutable", "Immut": "shared", "EcsId": "no component"}[fv]))
                continue
            if kind == "EcsId":
                rep.ok("fetch-type", where)
                continue
            if not (idt.op == "mget" and map_named(idt.args[0], "type_id_to_ecs_id")):
                rep.und("fetch-type", where, "the id is not looked up by type: %s" % short(idt, 80))
                continue
            tk = tkey_of(sty["t"])
            key = idt.args[1]
            if key.op == "typeid" and key.args[0] != tk:
                rep.bad("fetch-type", where, "the component of type %s is requested instead of %s" % (key.args[0], tk))
                continue
            if not has_fact(s, lambda f, b: b and f.op == "has" and f.args[0] is idt.args[0] and f.args[1] is key):
                rep.und("fetch-type", where, "not known that the type has an id")
                continue
            locked = has_fact(s, lambda f, b: b and f.op == "has" and map_named(f.args[0], "lock_lookup") and f.args[1] is idt)
            if not locked and (new_missing or iter_missing):
                rep.bad("fetch-type", where, "a component that no entity ever had is requested although the query panics for it")
                continue
            rep.ok("fetch-type", where)


def tkey_of(ty):
    from .engine import tkey
    return tkey(ty)


def panics_on(an, path, pred):
    for k, f in an.prog.fns.items():
        if f.path == path and f.body is not None and len(lifetimes_off(f.d.get("generics"))) == 1:
            r = an.root(path, key=k)
            if r is None:
                return True
            return any(has_fact(s, pred) for s, _ in r.panics())
    return True


def column_of(cx, s, p, G, idt):
    """Is pointer p the start of the column that group G (a value) has for id idt?  True / False / None"""
    if p.op != "uvptr":
        return None
    root, path = refpath(p.args[0])
    m = prefix(path, "component_storages", "[]") if root.op == "obj" else None
    if m is None and len(path) >= 4:
        m2 = prefix(path, "archetypes", "[]", "component_storages", "[]")
        if m2 is not None:
            m = [m2[1]]
    if m is None:
        return None
    C = m[-1]
    comps = fld(G, "comp_ids")
    if C.op == "mget" and map_named(C.args[0], "comp_lookup") and C.args[0].args[0] is G:
        if C.args[1] is idt or s.decide(eq(C.args[1], idt)) is True:
            return True
        return False if s.decide(eq(C.args[1], idt)) is False else None
    if s.decide(eq(vget(comps, C, s), idt)) is True:
        return True
    if C.op == "int":
        return False
    return None


@rule("C12", "C11")
def param_pointers(an, rep):
    """create_ptr: the column of the fetched component in the group (the handle list for handles), nothing only when the group
    lacks it; offset_ptr: by whole values of the parameter's type; cast_ptr: the value behind the pointer."""
    for r, kind, where, sty in param_impls(an, rep, "create_ptr"):
        cx = r.cx
        G = T("at", r.args[0])
        F = T("at", r.args[1])
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("column-pointer", where, "an unknown function runs on this path")
                continue
            var = s.variant(v)
            if var == "None":
                lacks = has_fact(s, lambda f, b: b is False and f.op == "has" and map_named(f.args[0], "comp_lookup")) or \
                    has_fact(s, lambda f, b: b is False and f.op == "contains" and map_named(f.args[0], "comp_ids"))
                if kind == "EcsId":
                    rep.bad("column-pointer", where, "a group is reported to have no handles")
                else:
                    rep.check(lacks or searched_none(cx, s, G), "column-pointer", where, "a group that has the component is reported to lack it",
                              undecided=True)
                continue
            if var != "Some":
                rep.und("column-pointer", where, "result not recognised")
                continue
            p = vfld(v, "Some", "0")
            if kind == "EcsId":
                root, path = refpath(p)
                if root.op == "obj" and root.args[0] is r.args[0] and path and path[0] is pf("entities"):
                    rest = path[1:]
                    if not rest or (len(rest) == 1 and rest[0].op in ("pi",) and rest[0].args[0] is I(0)):
                        rep.ok("column-pointer", where)
                    else:
                        rep.bad("column-pointer", where, "the handles do not start at the first row")
                elif p.op == "vecptr" or True:
                    rep.und("column-pointer", where, "pointer not recognised: %s" % short(p, 80))
                continue
            fv, idt = fetch_id(s, F)
            ids = [idt] if idt is not None else [vfld(F, x, "0") for x in ("Mut", "Immut")]
            res = [column_of(cx, s, p, G, i) for i in ids]
            if True in res:
                rep.ok("column-pointer", where)
            elif idt is not None and res == [False]:
                rep.bad("column-pointer", where, "the pointer is not to the requested component's column: %s" % short(p, 100))
            else:
                rep.und("column-pointer", where, "pointer not recognised: %s" % short(p, 100))
        for s, v in r.panics():
            pass
    for r, kind, where, sty in param_impls(an, rep, "offset_ptr"):
        cx = r.cx
        elem = ID if kind == "EcsId" else tkey_of(sty["t"]) if kind else None
        old = T("at", r.args[0])
        for s, v in r.rets():
            if tainted(cx, s.events) or elem is None:
                rep.und("pointer-step", where, "an unknown function runs on this path")
                continue
            new = cx.read(s, T("obj", r.args[0]), ())
            want = T("padd", old, mul(r.args[1], T("sizeof", elem)))
            if new is want:
                rep.ok("pointer-step", where)
                continue
            if new.op == "padd" and new.args[0] is old:
                d = sub(new.args[1], mul(r.args[1], T("sizeof", elem)))
                if d is I(0):
                    rep.ok("pointer-step", where)
                    continue
                z = s.decide(eq(T("sizeof", elem), I(0), True))
                if z is True:
                    rep.ok("pointer-step", where)
                    continue
                rep.bad("pointer-step", where, "moves by %s bytes for %s values of type %s" % (short(new.args[1], 60), short(r.args[1], 20), elem))
                continue
            if new is old:
                if s.decide(eq(r.args[1], I(0), True)) is True or s.decide(eq(T("sizeof", elem), I(0), True)) is True:
                    rep.ok("pointer-step", where)
                else:
                    rep.bad("pointer-step", where, "the pointer is not moved")
                continue
            rep.und("pointer-step", where, "new pointer not recognised: %s" % short(new, 80))
    for r, kind, where, sty in param_impls(an, rep, "cast_ptr"):
        cx = r.cx
        for s, v in r.rets():
            p = r.args[0]
            if tainted(cx, s.events):
                rep.und("item", where, "an unknown function runs on this path")
            elif kind == "EcsId":
                if v is T("at", p):
                    rep.ok("item", where)
                else:
                    rep.und("item", where, "handle not read through the pointer: %s" % short(v, 60))
            elif v is p or (v.op == "ref" and refpath(v) == (T("obj", p), ())):
                rep.ok("item", where)
            elif v.op == "padd" and v.args[0] is p:
                rep.bad("item", where, "the reference is not to the pointer's own value")
            else:
                rep.und("item", where, "reference not recognised: %s" % short(v, 60))


def searched_none(cx, s, G):
    return any(b is False and f.op in ("has", "contains") for f, b in s.bools.items())


# ---------------------------------------------------------------- one typed item
def peel(v):
    """A typed item: (param of the cast, pointer, [(param, steps)], source pointer)."""
    if v.op != "tcall" or v.args[0] != QP + "cast_ptr":
        return None
    X, p = v.args[1], v.args[2]
    steps = []
    q = p
    while q.op == "poff":
        steps.append((q.args[0], q.args[2]))
        q = q.args[1]
    return X, p, steps, q


def created(q):
    """(param, group reference, fetch reference) of a pointer made by create_ptr."""
    if q.op == "fld" and q.args[1] == "Some.0" and q.args[0].op == "tcall" and q.args[0].args[0] == QP + "create_ptr":
        t = q.args[0]
        return t.args[1], t.args[2], t.args[3]
    return None


def fetch_no(ref):
    """Position n when a reference designates element n of the query's fetches."""
    root, p = refpath(ref)
    if p and p[-1].op == "pi":
        return p[-1].args[0], root, p[:-1]
    return None


def tuple_items(v):
    if v.op == "agg" and v.args[0] in ("tuple", "array"):
        return list(v.args[4:])
    return None


def check_created(rep, rulename, where, g, n, q, group_ok):
    """The n-th pointer comes from the n-th parameter, the right group and the n-th fetch."""
    c = created(q)
    if c is None:
        rep.und(rulename, where, "element %d: pointer not recognised: %s" % (n, short(q, 90)))
        return False
    X, gr, fr = c
    if X != g[n]:
        rep.bad(rulename, where, "element %d is created by the parameter of another element" % n)
        return False
    f = fetch_no(fr)
    if f is None:
        rep.und(rulename, where, "element %d: fetch not recognised" % n)
        return False
    if f[0] is not I(n):
        (rep.bad if f[0].op == "int" else rep.und)(rulename, where, "element %d is created with fetch %s" % (n, short(f[0], 30)))
        return False
    d = group_ok(gr)
    if d is not True:
        (rep.bad if d is False else rep.und)(rulename, where, "element %d is taken from group %s" % (n, short(gr, 80)))
        return False
    return True


# ---------------------------------------------------------------- typed lookup of one entity
INVARIANT_NONE = ("vlen",)


@rule("C11", "C12")
def typed_get(an, rep):
    for r, g, where in roots(an, rep, SQ + "StaticQuery::get"):
        cx = r.cx
        a = r.args[0]
        h = r.args[1]
        W = T("at", fld(T("at", a), "world"))
        m = vget(fld(W, "ecs_id_meta"), uidx(h))
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("lookup", where, "an unknown function runs on this path")
                continue
            S, row = instance(m, s)
            var = s.variant(v)
            if var == "None":
                rep.check(none_reason(s, W, h, m), "lookup", where, "nothing is returned although no requested component is missing")
                continue
            if var != "Some":
                rep.und("lookup", where, "result not recognised")
                continue
            items = tuple_items(vfld(v, "Some", "0"))
            if items is None or len(items) != len(g):
                rep.und("lookup", where, "item not recognised")
                continue

            def group_ok(gr):
                root, p = refpath(gr)
                idx = prefix(p, "archetypes", "[]")
                if root.op == "obj" and T("at", root.args[0]) is W and idx is not None and len(p) == 2:
                    if idx[0] is S or s.decide(eq(idx[0], S, True)) is True:
                        return True
                    return False if (idx[0].op == "int" or s.decide(eq(idx[0], S, True)) is False) else None
                return None
            good = True
            for n, x in enumerate(items):
                c = peel(x)
                if c is None:
                    rep.und("lookup", where, "element %d not recognised: %s" % (n, short(x, 80)))
                    good = False
                    continue
                X, p, steps, q = c
                if X != g[n]:
                    rep.bad("lookup", where, "element %d is read as the type of another element" % n)
                    good = False
                    continue
                if not check_created(rep, "lookup", where, g, n, q, group_ok):
                    good = False
                    continue
                if any(y != g[n] for y, _ in steps):
                    rep.bad("lookup", where, "element %d is advanced by values of another element's type" % n)
                    good = False
                    continue
                total = I(0)
                for _, k in steps:
                    total = add(total, k)
                if total is row or s.decide(eq(total, row, True)) is True:
                    continue
                good = False
                if total.op == "int" or not any(t.op in ("lv", "sym") and t is not h for t in subterms(sub(total, row))) or contains(total, row):
                    rep.bad("lookup", where, "element %d is taken from row %s instead of the entity's row" % (n, short(total, 60)))
                else:
                    rep.und("lookup", where, "row of element %d not recognised: %s" % (n, short(total, 60)))
            if good:
                rep.ok("lookup", where)
        for s, v in r.panics():
            lookup_panic(rep, where, cx, s, v)


def lookup_panic(rep, where, cx, s, v, gone=None):
    """A lookup may only panic where the world's own lists contradict each other."""
    why = str(v[0] if isinstance(v, tuple) else v)[:60]
    if lacks(s):
        rep.bad("lookup-panic", where, "panics for an entity that lacks a requested component (%s)" % why)
    elif gone is not None and passed_all(cx, s, *gone):
        rep.bad("lookup-panic", where, "panics for an entity that lacks the component (%s)" % why)
    elif tainted(cx, s.events):
        rep.und("lookup-panic", where, "an unknown function runs on this path")
    else:
        rep.ok("lookup-panic", where)


def lacks(s):
    """Does the path know that a requested component is missing?"""
    for t, var in s.variants.items():
        if var == "None" and (t.op == "tcall" and t.args[0] == QP + "create_ptr" or t.op == "fld" and t.args[1] == "fetches"):
            return True
    return has_fact(s, lambda f, b: b is False and f.op in ("has", "contains") and f.args and isinstance(f.args[0], Term) and f.args[0].op == "fld"
                    and f.args[0].args[1] in ("comp_lookup", "comp_ids"))


@rule("C11", "C12")
def direct_get(an, rep):
    """Lookup of one component of one entity by ids."""
    where = WD + "get_component_mut_dynamic"
    r = an.root(where, tag="direct") if an.has(where) else None
    if r is None:
        rep.und("direct-lookup", where, "not analysed: %s" % an.errors.get(where, "not found"))
        return
    rep.functions.add(where)
    rep.paths += len(r.res)
    cx = r.cx
    W = T("at", r.args[0])
    h, c = r.args[1], r.args[2]
    m = vget(fld(W, "ecs_id_meta"), uidx(h))
    for s, v in r.rets():
        S, row = instance(m, s)
        if tainted(cx, s.events):
            rep.und("direct-lookup", where, "an unknown function runs on this path")
            continue
        var = s.variant(v)
        if var == "None":
            if none_reason(s, W, h, m) or s.decide(T("alive", fld(W, "entities"), c)) is False:
                rep.ok("direct-lookup", where)
            elif any(e[0] == "loop" for e in s.events):
                (rep.ok if passed_all(cx, s, vget(fld(W, "archetypes"), S), c) else rep.und)("direct-lookup", where, "search of the component not recognised")
            else:
                rep.bad("direct-lookup", where, "nothing is returned although the entity may have the component")
            continue
        if var != "Some":
            rep.und("direct-lookup", where, "result not recognised: %s" % short(v, 60))
            continue
        x = vfld(v, "Some", "0")
        if x.op == "fld" and x.args[1] == "Some.0":
            x = x.args[0]
        col = colref(x.args[0]) if x.op == "uvget" else None
        if col is None or col[0].op != "obj" or T("at", col[0].args[0]) is not W or col[1] is None:
            rep.und("direct-lookup", where, "result not recognised: %s" % short(v, 80))
            continue
        _, G, C = col
        if not (G is S or s.decide(eq(G, S, True)) is True):
            rep.bad("direct-lookup", where, "the value is taken from group %s instead of the entity's" % short(G, 50))
            continue
        i = x.args[1]
        if not (i is row or s.decide(eq(i, row, True)) is True):
            if not differ(s, i, row) and (any(y.op in ("lv", "unk") for y in subterms(i)) or (contains(i, row) and row not in parts(i)[1])):
                rep.und("direct-lookup", where, "row not recognised: %s" % short(i, 50))
            else:
                rep.bad("direct-lookup", where, "the value is taken from row %s instead of the entity's" % short(i, 50))
            continue
        grp = vget(fld(W, "archetypes"), G)
        good = C is mget(fld(grp, "comp_lookup"), c, s)
        for ids in (fld(grp, "comp_ids"),):
            y = vget(ids, C)
            good = good or s.decide(eq(y, c)) is True
            # equal slots of two living ids
            good = good or (s.decide(eq(uidx(y), uidx(c), True)) is True and s.decide(T("alive", fld(W, "entities"), c)) is True)
        y = fld(vget(fld(grp, "component_storages"), C), "0")
        good = good or s.decide(eq(y, c)) is True
        if good:
            rep.ok("direct-lookup", where)
        elif C.op in ("mget", "int", "lin", "K") or C is row or C is S:
            rep.bad("direct-lookup", where, "the value is taken from column %s, which need not be the component's" % short(C, 60))
        else:
            rep.und("direct-lookup", where, "column not recognised: %s" % short(C, 60))
    for s, v in r.panics():
        lookup_panic(rep, where, cx, s, v, (vget(fld(W, "archetypes"), instance(m, s)[0]), c))


def passed_all(cx, s, grp, c):
    """Was every component of a group looked at and found different from c?"""
    lists = [(fld(grp, "comp_ids"), lambda y: y), (fld(grp, "component_storages"), lambda y: fld(y, "0"))]
    for e in s.events:
        if e[0] != "loop":
            continue
        L = cx.loops[e[1]]
        for K in {x for p in s.ints for x in parts(p)[1] if x.op == "K"}:
            for ids, f in lists:
                if s.decide(le(vlen(ids), K)) is not True:
                    continue
                y = f(vget(ids, K))
                if L.iters and all(st.decide(eq(y, c)) is False or st.decide(eq(uidx(y), uidx(c), True)) is False for st, _ in L.iters):
                    return True
    return False


def none_reason(s, W, h, m):
    """Is a path that yields nothing justified: dead handle, no metadata, unknown or missing component, or an invariant broken?"""
    if s.decide(T("alive", fld(W, "entities"), h)) is False:
        return True
    if s.variant(m) == "None":
        return True
    for t, var in s.variants.items():
        if var != "None":
            continue
        if t.op == "tcall" and t.args[0] == QP + "create_ptr":
            return True
        if t.op == "fld" and t.args[1] == "fetches":
            return True
        if t.op == "fld" and t.args[1] == "component_storages":
            return True
    # an index out of the range of the world's own lists
    for p in s.ints:
        c, mm = parts(p)
        pos = [x for x, k in mm.items() if k == 1]
        neg_ = [x for x, k in mm.items() if k == -1]
        if len(mm) == 2 and len(pos) == 1 and len(neg_) == 1 and c >= 0 and pos[0].op == "vlen":
            return True
    # a column of the entity's group that is shorter than the group
    S, row = instance(m, s)
    for x in {x for p in s.ints for x in parts(p)[1] if x.op == "uvlen"}:
        col = colref(x.args[0])
        if col is not None and col[0].op == "obj" and T("at", col[0].args[0]) is W and s.decide(le(x, row)) is True and (
                col[1] is S or s.decide(eq(col[1], S, True)) is True):
            return True
    if has_fact(s, lambda f, b: b is False and f.op in ("has", "hasbits", "contains")):
        return True
    return False


# ---------------------------------------------------------------- typed iteration: where it starts
def is_len2(x):
    return x.op == "fld" and x.args[1] == "len" and (
        (x.args[0].op == "at" and x.args[0].args[0].op == "bitvecref") or (x.args[0].op == "fld" and x.args[0].args[1] == "entities_bitvec"))


def limit_high(cx, s, lim):
    """Is a length limit at least the smallest length of the visited sets?  (True/False/None, why)"""
    if lim.op == "int":
        return (lim.args[0] >= 2 ** 32 - 1), "the length limit is the constant %d" % lim.args[0]
    if lim.op == "trunc":
        lim = lim.args[0]
    if is_len2(lim):
        return True, ""
    if lim.op == "min":
        res = [limit_high(cx, s, x) for x in lim.args]
        for d, w in res:
            if d is False:
                return False, w
        return (True, "") if all(d for d, _ in res) else (None, "length limit not recognised")
    if lim.op == "max":
        res = [limit_high(cx, s, x)[0] for x in lim.args]
        return (True, "") if True in res else (None, "length limit not recognised")
    if lim.op == "vlen":
        return False, "the length limit counts whole words of a set, not its bits"
    c, d = parts(lim)
    if lim.op == "lin" and any(is_len2(x) for x in subterms(lim)):
        if c < 0 and all(k == 1 for k in d.values()) and len(d) == 1:
            return False, "the length limit is below the length of a set"
        if c >= 0 and all(k >= 1 for k in d.values()):
            return True, ""
    if lim.op == "div":
        return False, "the length limit is below the length of a set"
    if lim.op != "lv" or lim not in cx.lvs:
        return None, "length limit of unknown origin %s" % short(lim, 60)
    L, pos = cx.lvs[lim]
    i0 = cx.read(L.init, pos[0], pos[1])
    d, why = limit_high(cx, L.init, i0)
    if d is not True:
        return d, why
    for st, _ in L.iters:
        fv = cx.read(st, pos[0], pos[1])
        if fv is lim:
            continue
        if st.decide(le(lim, fv)) is True:
            continue
        if fv.op == "min" and lim in fv.args and all(x is lim or is_len2(x) for x in fv.args):
            continue
        d, why = limit_high(cx, st, fv)
        if d is not True:
            return d, why
    return True, ""


def bit_sources(rep, where, cx, s, xs, wanted, W):
    """xs: (word iterator, map) pairs of a path; wanted: the ids of the requested components.  True when exactly these are intersected."""
    got = []
    for x in xs:
        b = bit_source(x)
        if b is None:
            rep.und("visited-groups", where, "bit set not recognised: %s" % short(x, 80))
            return False
        if b[0] == "part":
            rep.bad("visited-groups", where, "only a part of a component's bit set is walked")
            return False
        f = identity_fn(cx, b[2])
        if f is not True:
            (rep.bad if f is False else rep.und)("visited-groups", where, "a bit set is mapped before it is intersected")
            return False
        if b[0] == "bits":
            got.append(b[1])
    for n, i in wanted:
        if i not in got and not any(s.decide(eq(i, x)) is True for x in got):
            rep.bad("visited-groups", where, "groups are visited that may lack requested component %d" % n)
            return False
    for x in got:
        if not any(x is i or s.decide(eq(i, x)) is True for _, i in wanted):
            rep.bad("visited-groups", where, "groups that lack a component that was not requested are left out: %s" % short(x, 60))
            return False
    return True


@rule("C11")
def typed_iter(an, rep):
    for r, g, where in roots(an, rep, SQ + "StaticQuery::iter", "iter"):
        cx = r.cx
        q = T("at", r.args[0])
        W = T("at", fld(q, "world"))
        fetches = fld(q, "fetches")
        cnt = counter_place(an, len(g))
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("visited-groups", where, "an unknown function runs on this path")
                continue
            bi = find_agg(v, "BitsetIterator")
            if bi is None:
                rep.und("visited-groups", where, "group iterator not recognised")
                continue
            fv = s.variant(fetches)
            lim = fld(bi, "bit_length")
            if fv == "None":
                rep.check(lim is I(0) or tuple_items(fld(bi, "iters")) == [], "visited-groups", where,
                          "a query with an unknown component may visit groups")
                continue
            if fv != "Some":
                rep.und("visited-groups", where, "fetches not examined")
                continue
            arch = agg_ref(v, W)
            if arch is not True:
                (rep.bad if arch is False else rep.und)("visited-groups", where, "the groups visited are not the world's list of groups")
                continue
            xs = tuple_items(fld(bi, "iters"))
            if xs is None:
                rep.und("visited-groups", where, "bit sets not recognised")
                continue
            wanted, known = [], True
            fs = vfld(fetches, "Some", "0")
            for n in range(len(g)):
                var, idt = fetch_id(s, vget(fs, I(n)))
                if var is None:
                    known = False
                elif idt is not None:
                    wanted.append((n, idt))
            if not known:
                rep.und("visited-groups", where, "the kind of a fetch is not examined")
                continue
            if not bit_sources(rep, where, cx, s, xs, wanted, W):
                continue
            d, why = limit_high(cx, s, lim)
            if d is not True:
                (rep.bad if d is False else rep.und)("visited-groups", where, why)
                continue
            rep.ok("visited-groups", where)
            if not (v.op == "agg" and agg_field(v, "fetches") is not None):
                continue
            ff = agg_field(v, "fetches")
            c = vfld(ff, "Some", "0") if ff.op == "agg" else None
            if c is not None:
                root, p = refpath(c)
                rep.check(cx.read(s, root, p) is fs, "fetches-kept", where, "the iterator does not use the query's own fetches", undecided=True)
            if cnt:
                x = v
                for e in cnt[0]:
                    x = fld(x, e.args[0]) if e.op == "pf" else T("unknown")
                z = s.decide(eq(x, I(0), True)) if cnt[1] == "down" else None
                if z is False:
                    rep.bad("starts-empty", where, "iteration starts with rows that no group provides")
                elif z is True:
                    rep.ok("starts-empty", where)


def agg_ref(v, W):
    """Does an iterator hold a reference to the world's group list?"""
    a = find_agg(v, "ArchetypeIter")
    if a is None:
        return None
    for x in a.args[4:]:
        if x.op in ("ref",):
            root, p = refpath(x)
            if root.op == "obj" and T("at", root.args[0]) is W and p and p[0] is ARCH:
                return True if len(p) == 1 else False if len(p) == 2 and p[1].op == "pslice" else None
    return None


# ---------------------------------------------------------------- iteration
def locate(cx, t):
    """The place whose earlier content a term stands for: (root, path)"""
    path = []
    while True:
        if t in cx.lvs and t.op == "lv":
            L, pos = cx.lvs[t]
            return pos[0], tuple(pos[1]) + tuple(reversed(path))
        if t.op == "fld" and "." not in t.args[1]:
            path.append(pf(t.args[1]))
            t = t.args[0]
        elif t.op == "vget":
            path.append(pi(t.args[1]))
            t = t.args[0]
        elif t.op == "at":
            return T("obj", t.args[0]), tuple(reversed(path))
        else:
            return None


def group_hit(cx, events):
    """[(hit term or None, iterator, event)] of the group searches of a path (not those of its loops)."""
    return [(e[2], e[1], e) for e in events if e[0] == "bitnext"]


COUNTERS = {}


def counter_place(an, nparams):
    """Where the typed iterator counts the rows left of the current group: (path below self, direction)."""
    key = (id(an), nparams)
    if key in COUNTERS:
        return COUNTERS[key]
    res = None
    for k, f in an.prog.fns.items():
        if f.path.endswith("StaticQueryIter as std::iter::Iterator>::next") and f.body is not None and \
                len(lifetimes_off(f.d.get("generics"))) == nparams:
            r = an.root(f.path, key=k)
            if r is None:
                continue
            for s, v in r.rets():
                if s.variant(v) == "Some":
                    c = find_counter(r.cx, s, T("obj", r.args[0]))
                    if c:
                        res = (c[1], "down")
    COUNTERS[key] = res
    return res


def int_writes(cx, s, W):
    for e, chain in all_events(cx, s.events):
        if e[0] == "w" and e[1] is W:
            yield e, chain


def find_counter(cx, s, self_):
    """The place that is decremented by one on a path: (root, path, old value)."""
    for e in s.events:
        if e[0] == "w" and e[1] is self_:
            old = add(e[3], I(1))
            l = locate(cx, old)
            if l is not None and l == (e[1], tuple(e[2])):
                return e[1], tuple(e[2]), old, e
    return None


@rule("C11", "C12")
def typed_next(an, rep):
    for r, g, where in roots(an, rep, "<" + SQ + "StaticQueryIter as std::iter::Iterator>::next"):
        iteration(an, rep, r, where, lambda cx, s, v: typed_elements(cx, s, v, g), len(g), typed_refill(rep, g))


def typed_elements(cx, s, v, g):
    """Places the elements of an item are taken from: [(n, place)] or (reason, None)"""
    items = tuple_items(vfld(v, "Some", "0"))
    if items is None or len(items) != len(g):
        return "und", "item not recognised"
    out = []
    for n, x in enumerate(items):
        c = peel(x)
        if c is None:
            return "und", "element %d not recognised: %s" % (n, short(x, 60))
        X, p, steps, q = c
        if X != g[n]:
            return "bad", "element %d is read as the type of another element" % n
        if steps:
            return "bad" if all(k.op == "int" for _, k in steps) else "und", "element %d is taken after the pointer was advanced" % n
        l = locate(cx, q)
        if l is None:
            return "und", "element %d: pointer not recognised: %s" % (n, short(q, 60))
        new = cx.read(s, l[0], l[1])
        st = []
        while new.op == "poff":
            st.append((new.args[0], new.args[2]))
            new = new.args[1]
        if new is not q:
            return "und", "element %d: the pointer afterwards is not recognised: %s" % (n, short(new, 60))
        if any(y != g[n] for y, _ in st):
            return "bad", "the pointer of element %d is advanced by values of another element's type" % n
        tot = I(0)
        for _, k in st:
            tot = add(tot, k)
        if tot is not I(1):
            return ("bad" if tot.op == "int" else "und"), "the pointer of element %d is advanced by %s values" % (n, short(tot, 20))
        out.append((n, l))
    ls = [l for _, l in out]
    if len(set(ls)) != len(ls):
        return "bad", "two elements share one pointer"
    return "ok", out


def typed_refill(rep, g):
    def f(cx, st, places, gref, where):
        """pointers after a new group was taken: created by the n-th parameter from the n-th fetch"""
        good = True
        for n, l in places:
            p = cx.read(st, l[0], l[1])
            steps = []
            while p.op == "poff":
                steps.append(p.args[2])
                p = p.args[1]
            if steps:
                rep.bad("next-group", where, "element %d does not start at the first row of a group" % n)
                good = False
                continue
            good = check_created(rep, "next-group", where, g, n, p, gref) and good
        return good
    return f


def iteration(an, rep, r, where, elements_of, width, refill):
    """An iterator's next(): rows of the current group one after the other, then the next group, nothing only at the end."""
    cx = r.cx
    self_ = T("obj", r.args[0])
    places = None
    counter = None
    some_paths = [(s, v) for s, v in r.rets() if s.variant(v) == "Some"]
    for s, v in some_paths:
        if tainted(cx, s.events):
            rep.und("item", where, "an unknown function runs on this path")
            continue
        k, out = elements_of(cx, s, v)
        if k != "ok":
            (rep.bad if k == "bad" else rep.und)("item", where, out)
            continue
        c = find_counter(cx, s, self_)
        if c is None:
            rep.und("item", where, "the count of rows left was not recognised")
            continue
        if s.decide(lt(I(0), c[2])) is not True and s.decide(eq(c[2], I(0), True)) is not False:
            rep.bad("item", where, "an item is produced although no row of the group is left")
            continue
        places, counter = out, c
        rep.ok("item", where)
    if places is None:
        return
    for s, v in r.rets():
        var = s.variant(v)
        if var is None:
            rep.und("end", where, "result not recognised")
        if var != "None":
            continue
        if tainted(cx, s.events):
            rep.und("end", where, "an unknown function runs on this path")
            continue
        ended = [e for h, it, e in group_hit(cx, s.events) if h is None]
        no_fetch = any(b == "None" and t.op == "fld" and t.args[1] == "fetches" for t, b in s.variants.items())
        if ended:
            cur = counter_now(cx, s, counter)
            if cur is not None and s.decide(eq(cur, I(0), True)) is not True and s.decide(le(cur, I(0))) is not True:
                rep.bad("end", where, "the iteration can end although rows of the current group are left")
            else:
                rep.ok("end", where)
        elif no_fetch:
            rep.ok("end", where)
        else:
            rep.bad("end", where, "the iteration can end before all groups were visited")
    # paths on which a new group is taken
    seen = set()
    for kind, s, v in r.res:
        cand = []
        if kind != "panic":
            cand.append((s, s.events))
        for L in loops_in(cx, s.events):
            if L in seen:
                continue
            seen.add(L)
            for st, _ in L.iters:
                cand.append((st, L.events(st)))
        for st, ev in cand:
            for h, it, e in group_hit(cx, ev):
                if h is None:
                    continue
                if tainted(cx, ev):
                    rep.und("next-group", where, "an unknown function runs on this path")
                    continue
                new_group(cx, rep, st, ev, h, it, e, counter, places, refill, where)


def counter_now(cx, s, counter):
    """The value the row counter had when the path began to look for a new group (it is not written by that search)."""
    return cx.read(s, counter[0], counter[1])


def head_value(cx, st, place, e):
    """Value of a place before the event e of a path: the last loop-carried or initial value."""
    return None


def new_group(cx, rep, st, ev, h, it, e, counter, places, refill, where):
    gl = T("fld", it, "x")

    def gref(ref):
        root, p = refpath(ref)
        if p and p[-1].op == "pi" and root.op == "obj":
            if p[-1].args[0] is h:
                return True
            return False
        return None
    cnt = cx.read(st, counter[0], counter[1])
    good = True
    if cnt.op == "vlen" and cnt.args[0].op == "fld" and cnt.args[0].args[1] == "entities" and contains(cnt.args[0], h):
        pass
    else:
        c, m = parts(cnt)
        ent = [a for a in m if a.op == "vlen" and contains(a, h)]
        if len(m) == 1 and ent and c != 0 or cnt.op == "int":
            rep.bad("next-group", wh(where, e), "the rows left of a new group are taken to be %s" % short(cnt, 60))
        elif ent or cnt.op in ("min", "div", "cap"):
            rep.bad("next-group", wh(where, e), "the rows left of a new group are taken to be %s" % short(cnt, 60))
        elif locate(cx, cnt) == (counter[0], counter[1]) and passed_over(cx, st, h) is not None:
            if passed_over(cx, st, h):
                rep.ok("next-group", where)
                return
            rep.bad("next-group", wh(where, e), "a group can be passed over although it has rows")
        elif any(x.op == "vlen" and x.args[0].op == "fld" and x.args[0].args[1] == "entities" and contains(x, h) and differ(st, cnt, x) for x in subterms(cnt)):
            rep.bad("next-group", wh(where, e), "the rows left of a new group are taken to be %s" % short(cnt, 60))
        elif cnt.op in ("max", "satadd") and not vary(st, cnt):
            rep.bad("next-group", wh(where, e), "the rows left of a new group are taken to be %s" % short(cnt, 60))
        else:
            rep.und("next-group", wh(where, e), "rows left of a new group not recognised: %s" % short(cnt, 60))
        good = False
    # nothing of the previous group may be left
    old = None
    for x in subterms_of_ints(st):
        l = locate(cx, x)
        if l == (counter[0], counter[1]):
            old = x
    if old is None:
        rep.und("next-group", wh(where, e), "not known whether rows of the previous group are left")
        good = False
    elif st.decide(eq(old, I(0), True)) is not True and st.decide(le(old, I(0))) is not True:
        rep.bad("next-group", wh(where, e), "a new group is taken while rows of the previous one are left")
        good = False
    if good and refill(cx, st, places, gref, where):
        rep.ok("next-group", where)


def passed_over(cx, st, h):
    """Is the group that was found certainly without rows on a path that does not take it?  (None: not known)"""
    lens = {a for a in subterms_of_ints(st) if a.op == "vlen" and a.args[0].op == "fld" and a.args[0].args[1] == "entities" and contains(a, h)}
    for a in lens:
        if st.decide(eq(a, I(0), True)) is True or st.decide(le(a, I(0))) is True:
            return True
    return False if lens and not any(contains(t, h) for t in st.bools) else None


def vary(st, cnt):
    """Could the value of a maximum still be the length of the group on this path?"""
    lens = [a for a in cnt.args if a.op == "vlen"]
    return not lens or any(st.decide(le(b, a)) is True for a in lens for b in cnt.args if b is not a)


def subterms_of_ints(st):
    seen = set()
    for p in st.ints:
        for t in subterms(p):
            if t not in seen:
                seen.add(t)
                yield t


# ---------------------------------------------------------------- locks
def guard_of(v):
    """(mode, lock reference) of a guard value, looking through wrapping variants; None if there is no lock in it."""
    for t in subterms(v):
        if t.op == "guard":
            return t.args[0], t.args[1]
    return None


def check_guard(rep, where, s, n, var, idt, gv, W):
    """The guard kept for fetch n is the lock of its own component, in the right mode."""
    gd = guard_of(gv)
    if gd is None:
        if gv.op in ("lv", "sym", "vget", "apply", "tcall"):
            rep.und("lock-held", where, "guard of component %s not recognised: %s" % (n, short(gv, 60)))
        else:
            rep.bad("lock-held", where, "the lock of requested component %s is not held" % n)
        return False
    mode, ref = gd
    root, p = refpath(ref)
    i = prefix(p, "locks", "[]")
    if i is None or len(p) != 2:
        rep.und("lock-held", where, "lock not recognised: %s" % short(ref, 80))
        return False
    x = i[0]
    if x.op == "mget" and map_named(x.args[0], "lock_lookup"):
        if not (x.args[1] is idt or s.decide(eq(x.args[1], idt)) is True):
            rep.bad("lock-held", where, "the lock held for component %s is that of %s" % (n, short(x.args[1], 60)))
            return False
    else:
        (rep.bad if x.op == "int" or "uindex" in show(x) or not any(t.op == "mget" for t in subterms(x)) else rep.und)(
            "lock-held", where, "the lock held for component %s is number %s" % (n, short(x, 60)))
        return False
    if var == "Mut" and mode not in ("write", "Write"):
        rep.bad("lock-held", where, "component %s is requested mutably but locked for shared access" % n)
        return False
    if var == "Immut" and mode not in ("read", "Read"):
        rep.bad("lock-held", where, "component %s is requested for shared access but locked exclusively" % n)
        return False
    return True


@rule("C13")
def typed_locks(an, rep):
    for r, g, where in roots(an, rep, SQ + "StaticQuery::new", "new"):
        cx = r.cx
        W = T("at", r.args[0])
        for s, v in r.rets():
            if tainted(cx, s.events) or v.op != "agg":
                rep.und("lock-held", where, "an unknown function runs on this path")
                continue
            ff = agg_field(v, "fetches")
            gs = agg_field(v, "_guards")
            if gs is None:
                for n, x in zip(v.args[3], v.args[4:]):
                    if guard_of(x) is not None:
                        gs = x
            if ff is None:
                rep.und("lock-held", where, "fetches not recognised")
                continue
            fv = s.variant(ff)
            if fv == "None":
                # nothing can be accessed; must be so because a component is unknown
                unknown_ = any(b == "None" and t.op == "tcall" and t.args[0] == QP + "fetch_type" for t, b in s.variants.items())
                rep.check(unknown_ or has_fact(s, lambda f, b: b is False and f.op == "has"), "lock-held", where,
                          "a query is made empty although all its components are known")
                continue
            items = tuple_items(vfld(ff, "Some", "0")) if fv == "Some" else None
            gl = tuple_items(gs) if gs is not None else []
            if items is None or gl is None or len(items) != len(g):
                rep.und("lock-held", where, "fetches not recognised")
                continue
            good = True
            for n, F in enumerate(items):
                t = F.args[0] if F.op == "fld" and F.args[1] == "Some.0" else None
                if t is not None and t.op == "tcall" and t.args[0] == QP + "fetch_type" and t.args[1] != g[n]:
                    rep.bad("lock-held", where, "fetch %d belongs to another parameter" % n)
                    good = False
                    continue
                var, idt = fetch_id(s, F)
                if var is None:
                    if n < len(gl) and guard_of(gl[n]) is None:
                        rep.bad("lock-held", where, "no lock is held for parameter %d" % n)
                    else:
                        rep.und("lock-held", where, "the kind of fetch %d is not examined" % n)
                    good = False
                elif idt is not None:
                    if n >= len(gl):
                        rep.bad("lock-held", where, "no lock is held for parameter %d" % n)
                        good = False
                    else:
                        good = check_guard(rep, where, s, n, var, idt, gl[n], W) and good
            if good:
                rep.ok("lock-held", where)


def bool_const(v):
    return True if v is TRUE else False if v is FALSE else None


@rule("C13")
def dynamic_locks(an, rep):
    for r, g, where in roots(an, rep, DQ + "DynQuery::new"):
        cx = r.cx
        W = T("at", r.args[0])
        fetches = r.args[1]
        for s, v in r.rets():
            if tainted(cx, s.events) or v.op != "agg":
                rep.und("lock-held", where, "an unknown function runs on this path")
                continue
            gs, inc = None, None
            for n, x in zip(v.args[3], v.args[4:]):
                a = arr(cx, s, x)
                if a is not None and any(guard_of(y) is not None for _, y in a.alts):
                    gs = (x, a)
                if n == "incomplete":
                    inc = x
            kept = agg_field(v, "fetches")
            if kept is not None and kept is not fetches:
                rep.und("lock-held", where, "the query's fetches are not those it was asked for")
                continue
            if gs is None:
                x = agg_field(v, "_guards")
                if x is not None and x.op == "lv" and arr(cx, s, x) is None:
                    rep.und("lock-held", where, "guards not recognised")
                else:
                    rep.bad("lock-held", where, "no locks are held")
                continue
            x, a = gs
            if s.decide(inc) is True if inc is not None and inc.op != "lv" else False:
                rep.ok("lock-held", where)
                continue
            good = True
            ipos = cx.lvs.get(inc) if inc is not None and inc.op == "lv" else None
            if not a.full:
                left = None
                if ipos is None or ipos[0] is not a.L:
                    left = True
                if not (inc is TRUE):
                    (rep.und if a.und else rep.bad)("lock-held", where, "locking the requested components: %s" % a.why)
                    continue
            for st, gv in a.alts:
                var, idt = fetch_id(st, vget(fetches, a.K, st))
                marked = None
                if ipos is not None and ipos[0] is a.L:
                    f = cx.read(st, ipos[1][0], ipos[1][1])
                    marked = True if f is TRUE else None
                    if f is FALSE:
                        rep.bad("lock-held", where, "a missing component can be forgotten")
                        good = False
                if var == "EcsId" or marked:
                    continue
                if var is None:
                    if guard_of(gv) is None:
                        rep.bad("lock-held", where, "a requested component's lock is not taken")
                    else:
                        rep.und("lock-held", where, "the kind of a fetch is not examined")
                    good = False
                    continue
                good = check_guard(rep, where, st, "#" + show(a.K), var, idt, gv, W) and good
            if good:
                rep.ok("lock-held", where)


# ---------------------------------------------------------------- dynamic queries
SOURCES = {}


def whole_place(cx, t):
    return locate(cx, t)


def dyn_elements(info):
    def f(cx, s, v):
        x = vfld(v, "Some", "0")
        a = arr(cx, s, x)
        if a is not None:
            if any(y.op == "padd" for _, y in a.alts) and a.init.op not in ("rep", "agg"):
                return "bad", "the pointers are taken after they were advanced"
            return "und", "item not recognised"
        l = locate(cx, x)
        if l is None:
            return "und", "item not recognised: %s" % short(x, 60)
        new = cx.read(s, l[0], l[1])
        if new is x:
            return "bad", "the pointers are not advanced"
        a = arr(cx, s, new)
        if a is None:
            return "und", "the pointers afterwards are not recognised: %s" % short(new, 60)
        if not a.full:
            return ("und" if a.und else "bad"), "advancing the pointers: %s" % a.why
        off = None
        for st, y in a.alts:
            cur = T("vget", x, a.K)
            if y.op != "padd" or y.args[0] is not cur:
                if y is cur:
                    return "bad", "a pointer is not advanced"
                return "und", "the pointers afterwards are not recognised: %s" % short(y, 60)
            d = y.args[1]
            if d.op == "vget":
                if d.args[1] is not a.K:
                    return "bad", "a pointer is advanced by the step of another element"
                o = locate(cx, d.args[0])
            else:
                o = None
            if o is None:
                bad = d.op == "int" or (d.op in ("lin", "mul", "trunc", "min", "max") and any(z.op == "vget" and z.args[1] is a.K for z in subterms(d)))
                return ("bad" if bad else "und"), "a pointer is advanced by %s" % short(d, 60)
            if off is not None and off != o:
                return "und", "steps from two places"
            off = o
        if off is None:
            return "und", "no step recognised"
        info["off"] = off
        return "ok", l
    return f


def call_of(x, part):
    """(function, group, id option) when x is component `part` of the result of a stored pointer function."""
    if x.op == "fld" and x.args[1] == part and x.args[0].op == "apply" and len(x.args[0].args) == 3:
        return x.args[0].args
    return None


def stored_call(cx, rep, where, a, part, gref, info, what):
    """Array a holds, at every position, `part` of the stored function's result for the group and the stored id."""
    if a is None:
        rep.und("next-group", where, "%s of a new group not recognised" % what)
        return False
    if not a.full:
        (rep.und if a.und else rep.bad)("next-group", where, "%s of a new group: %s" % (what, a.why))
        return False
    for st, x in a.alts:
        c = call_of(x, part)
        if c is None:
            other = call_of(x, "1" if part == "0" else "0")
            core = [t for t in subterms(x) if call_of(t, part)]
            (rep.bad if other or core or x.op in ("int", "ptrint") else rep.und)("next-group", where, "%s of a new group: %s" % (what, short(x, 80)))
            return False
        f, g, i = c
        for t, nm in ((f, "fn"), (i, "id")):
            if t.op != "vget":
                rep.und("next-group", where, "%s of a new group: %s" % (what, short(t, 80)))
                return False
            if t.args[1] is not a.K:
                rep.bad("next-group", where, "%s of a new group: element taken from another position" % what)
                return False
            l = locate(cx, t.args[0])
            if l is None:
                rep.und("next-group", where, "%s of a new group: %s" % (what, short(t, 80)))
                return False
            if info.setdefault(nm, l) != l:
                rep.und("next-group", where, "two sources for %s" % what)
                return False
        d = gref(g)
        if d is not True:
            (rep.bad if d is False else rep.und)("next-group", where, "%s is taken from another group" % what)
            return False
    return True


def dyn_refill(rep, info):
    def f(cx, st, place, gref, where):
        ptrs = arr(cx, st, cx.read(st, place[0], place[1]))
        offs = arr(cx, st, cx.read(st, info["off"][0], info["off"][1]))
        return stored_call(cx, rep, where, ptrs, "0", gref, info, "pointer") and stored_call(cx, rep, where, offs, "1", gref, info, "step")
    return f


@rule("C11", "C12")
def dynamic_next(an, rep):
    for r, g, where in roots(an, rep, "<" + DQ + "DynQueryIter as std::iter::Iterator>::next"):
        info = {}
        iteration(an, rep, r, where, dyn_elements(info), None, dyn_refill(rep, info))
        for s, v in r.rets():
            if s.variant(v) == "Some":
                c = find_counter(r.cx, s, T("obj", r.args[0]))
                if c:
                    info["counter"] = c[1]
        SOURCES["iter"] = dict(info, self=T("obj", r.args[0]))
    for r, g, where in roots(an, rep, "<" + DQ + "DynQueryColumnIter as std::iter::Iterator>::next"):
        cx = r.cx
        info = {}
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("column-item", where, "an unknown function runs on this path")
                continue
            hits = group_hit(cx, s.events)
            var = s.variant(v)
            if var == "None":
                rep.check(any(h is None for h, _, _ in hits), "end", where, "the iteration can end before all groups were visited")
                continue
            if var != "Some" or not hits or hits[-1][0] is None or any(h is None for h, _, _ in hits):
                rep.und("column-item", where, "group not recognised")
                continue
            if len(hits) > 1 or any(e[0] == "bitnext" for e, ch in all_events(cx, s.events) if ch):
                rep.bad("column-item", where, "groups are passed over")
                continue
            h = hits[0][0]

            def gref(ref):
                root, p = refpath(ref)
                if p and p[-1].op == "pi" and root.op == "obj":
                    return p[-1].args[0] is h
                return None
            a = arr(cx, s, vfld(v, "Some", "0"))
            if a is None:
                rep.und("column-item", where, "item not recognised")
                continue
            b = Arr()
            b.L, b.K, b.full, b.why, b.und, b.init = a.L, a.K, a.full, a.why, a.und, a.init
            b.alts = [(st, fld(x, "0")) for st, x in a.alts]
            if not stored_call(cx, rep, where, b, "0", gref, info, "column pointer"):
                continue
            good = True
            for st, x in a.alts:
                n = fld(x, "1")
                if n.op == "vlen" and n.args[0].op == "fld" and n.args[0].args[1] == "entities" and contains(n, h):
                    continue
                good = False
                c, m = parts(n)
                (rep.bad if n.op == "int" or (contains(n, h) and c != 0) or n.op in ("min", "div", "cap") else rep.und)(
                    "column-item", where, "the length of a column is taken to be %s" % short(n, 60))
            if good:
                rep.ok("column-item", where)
        SOURCES["column_iter"] = dict(info, self=T("obj", r.args[0]))


def at_path(v, place, self_):
    """Value of an iterator's field (as the iteration's rule found it) in the newly built iterator v."""
    if place is None or place[0] is not self_:
        return None
    for e in place[1]:
        if e.op != "pf" or v.op not in ("agg", "with"):
            return None
        v = fld(v, e.args[0])
    return v


def other_fetch(st, fetches, K):
    """Is what the iteration does chosen by the fetch at another position than K (and not by that at K)?"""
    ks = [t.args[1] for t in st.variants if t.op == "vget" and t.args[0] is fetches and any(x.op == "K" for x in subterms(t.args[1]))]
    return bool(ks) and K not in ks


def fetch_ids(cx, s, t, fetches):
    """Arr of an array that holds, for every fetch, its id if it has one: (Arr, verdict, why)"""
    a = arr(cx, s, t)
    if a is None:
        return None, None, "array of ids not recognised"
    if not a.full:
        return a, (None if a.und else False), a.why
    for st, x in a.alts:
        F = vget(fetches, a.K, st)
        var, idt = fetch_id(st, F)
        xv = st.variant(x)
        if var is None and other_fetch(st, fetches, a.K):
            return a, False, "the id of another fetch is recorded"
        if var is None or xv is None:
            return a, None, "the id of a fetch is not recognised"
        if var == "EcsId":
            if xv != "None":
                return a, False, "an id is recorded for a fetch of handles"
        elif xv != "Some" or vfld(x, "Some", "0") is not idt:
            return a, (False if xv == "None" else None), "the id of a fetch is not recorded"
    return a, True, ""


def fetch_of_id(cx, s, i, fetches, verdicts):
    """Position C such that i is the id of fetches[C] (through an array of ids whose rule is recorded in verdicts)."""
    if i.op == "fld" and i.args[1] in ("Mut.0", "Immut.0") and i.args[0].op == "vget" and i.args[0].args[0] is fetches:
        return i.args[0].args[1]
    if i.op == "fld" and i.args[1] == "Some.0" and i.args[0].op == "vget":
        a, d, why = fetch_ids(cx, s, i.args[0].args[0], fetches)
        verdicts.append((d, why))
        if d is True:
            return i.args[0].args[1]
    return None


def no_id(cx, s, st, C, fetches):
    """Is the fetch at C known to ask for handles?"""
    if st.variant(vget(fetches, C, st)) == "EcsId":
        return True
    for t, var in st.variants.items():
        if var == "None" and t.op == "vget" and t.args[1] is C:
            a, d, why = fetch_ids(cx, s, t.args[0], fetches)
            if d is True:
                return True
    return False


@rule("C11")
def dynamic_visits(an, rep):
    for name in ("iter", "column_iter"):
        for r, g, where in roots(an, rep, DQ + "DynQuery::" + name):
            dynamic_visit(an, rep, r, where)


def dynamic_visit(an, rep, r, where):
    cx = r.cx
    q = T("at", r.args[0])
    W = T("at", fld(q, "world"))
    fetches = fld(q, "fetches")
    inc = fld(q, "incomplete")
    for s, v in r.panics():
        if s.decide(inc) is not False and has_fact(s, lambda f, b: b is False and f.op == "hasbits"):
            rep.bad("unknown-component", where, "panics for a component the world does not know")
    for s, v in r.rets():
        if tainted(cx, s.events):
            rep.und("visited-groups", where, "an unknown function runs on this path")
            continue
        bi = find_agg(v, "BitsetIterator")
        if bi is None:
            rep.und("visited-groups", where, "group iterator not recognised")
            continue
        lim = fld(bi, "bit_length")
        d = s.decide(inc)
        if d is True:
            rep.check(lim is I(0) or tuple_items(fld(bi, "iters")) == [], "visited-groups", where,
                      "a query with an unknown component may visit groups")
            continue
        if lim is I(0):
            rep.check(d is not False, "visited-groups", where, "no group is visited although all components are known")
            continue
        arch = agg_ref(v, W)
        if arch is not True:
            (rep.bad if arch is False else rep.und)("visited-groups", where, "the groups visited are not the world's list of groups")
            continue
        els = elements(cx, fld(bi, "iters"))
        if els == [] and any(x.op == "cparam" and s.decide(eq(x, I(0), True)) is True for p_ in s.ints for x in parts(p_)[1]):
            continue        # a query without fetches
        if els is None or len(els) != 1 or els[0][0] != "gen":
            rep.und("visited-groups", where, "bit sets not recognised: %s" % short(fld(bi, "iters"), 60))
            continue
        _, L, its = els[0]
        verd = []
        seq, bad, und = [], None, None
        K = None
        for hv in L.vals.values():
            if hv.op == "K":
                K = hv
        for st, xs in its:
            if len(xs) != 1:
                bad = bad or ("a component is passed over" if not xs else None)
                und = und or "several sets per component"
                seq.append((st, None))
                continue
            b = bit_source(xs[0])
            if b is None:
                und = und or "bit set not recognised: %s" % short(xs[0], 60)
                continue
            if b[0] == "part":
                bad = bad or "only a part of a component's bit set is walked"
                continue
            f = identity_fn(cx, b[2])
            if f is not True:
                if f is False:
                    bad = bad or "a bit set is mapped before it is intersected"
                und = und or "word map not recognised"
                continue
            if b[0] == "bits":
                C = fetch_of_id(cx, st, b[1], fetches, verd)
                if C is None:
                    und = und or "a set of unknown origin: %s" % short(b[1], 60)
                    continue
                seq.append((st, C))
            else:
                C = K
                if C is None:
                    und = und or "position not recognised"
                    continue
                seq.append((st, C))
                if not no_id(cx, st, st, C, fetches):
                    bad = bad or "the set of a requested component is not intersected"
        for dd, why in verd:
            if dd is False:
                bad = bad or why
            elif dd is None:
                und = und or why
        if bad is None and und is None:
            en = enum_positions(cx, L, seq)
            if not en.ok:
                if en.und:
                    und = en.why
                else:
                    bad = en.why
            elif en.skips:
                bad = "a component is passed over"
            elif not reached_all(s, en.hv):
                bad = "not every component is visited"
        if bad is None and und is None:
            dl, why = limit_high(cx, s, lim)
            if dl is False:
                bad = why
            elif dl is None:
                und = why
        if bad:
            rep.bad("visited-groups", where, bad)
        elif und:
            rep.und("visited-groups", where, und)
        else:
            rep.ok("visited-groups", where)


@rule("C12", "C11")
def dynamic_sources(an, rep):
    """The pointer function and the id an iterator stores for a fetch give the start of that component's column and its size."""
    scratch = Report("x")
    dynamic_next(an, scratch)
    for name in ("iter", "column_iter"):
        info = SOURCES.get(name, {})
        for r, g, where in roots(an, rep, DQ + "DynQuery::" + name):
            cx = r.cx
            fetches = fld(T("at", r.args[0]), "fetches")
            done = set()
            for s, v in r.rets():
                if tainted(cx, s.events) or "fn" not in info or "id" not in info:
                    rep.und("stored-fetch", where, "the iterator's fields are not recognised")
                    continue
                if info.get("counter"):
                    c = at_path(v, (info["self"], info["counter"]), info["self"])
                    if c is not None and s.decide(eq(c, I(0), True)) is False:
                        rep.bad("starts-empty", where, "iteration starts with rows that no group provides")
                if fld(find_agg(v, "BitsetIterator") or v, "bit_length") is I(0):
                    continue
                ft, it = at_path(v, info["fn"], info["self"]), at_path(v, info["id"], info["self"])
                if ft is None or it is None:
                    rep.und("stored-fetch", where, "the iterator's fields are not recognised")
                    continue
                fa = arr(cx, s, ft)
                ia, d, why = fetch_ids(cx, s, it, fetches)
                if fa is None or ia is None:
                    rep.und("stored-fetch", where, "the iterator's fields are not recognised")
                    continue
                if d is not True:
                    (rep.bad if d is False else rep.und)("stored-fetch", where, why)
                    continue
                if not fa.full:
                    (rep.und if fa.und else rep.bad)("stored-fetch", where, "pointer functions: " + fa.why)
                    continue
                for st1, fn in fa.alts:
                    v1, _ = fetch_id(st1, vget(fetches, fa.K, st1))
                    if v1 is None and other_fetch(st1, fetches, fa.K):
                        rep.bad("stored-fetch", where, "the pointer function is that of another fetch")
                        break
                    for st2, io in ia.alts:
                        v2, idt = fetch_id(st2, vget(fetches, ia.K, st2))
                        if v1 is not None and v1 != v2:
                            continue
                        if (fn, v1, v2, io) in done:
                            continue
                        done.add((fn, v1, v2, io))
                        pointer_function(cx, rep, where, fn, io, v2, idt)


def pointer_function(cx, rep, where, fn, io, var, idt):
    G = T("sym", "group")
    try:
        res = cx.apply(None, State(), fn, [G, io], "")
    except (Unsupported, Budget):
        res = []
    rets = [(s, v) for k, s, v in res if k == "ret"]
    if not rets and res and all(k == "panic" for k, s, v in res):
        rep.bad("stored-fetch", where, "the pointer function only panics")
    elif not rets:
        rep.und("stored-fetch", where, "pointer function not analysed")
    for s, v in rets:
        if v.op == "apply" or tainted(cx, s.events):
            rep.und("stored-fetch", where, "pointer function not recognised")
            continue
        p, n = fld(v, "0"), fld(v, "1")
        if var == "EcsId":
            root, path = refpath(p)
            if root is not T("obj", G) or not path or path[0] is not pf("entities"):
                rep.und("stored-fetch", where, "pointer to the handles not recognised: %s" % short(p, 60))
                continue
            if len(path) > 1 and not (path[1:] == (pi(I(0)),)):
                rep.bad("stored-fetch", where, "the handles do not start at the first row")
                continue
            if n is T("sizeof", ID):
                rep.ok("stored-fetch", where)
            else:
                rep.bad("stored-fetch", where, "handles are stepped over by %s" % short(n, 60)) if n.op in ("int", "sizeof", "lin") else \
                    rep.und("stored-fetch", where, "step not recognised: %s" % short(n, 60))
            continue
        c = column_of(cx, s, p, T("at", G), idt)
        if c is not True:
            (rep.bad if c is False else rep.und)("stored-fetch", where, "the pointer is not to the requested component's column: %s" % short(p, 80))
            continue
        size = fld(fld(T("typeinfo", p.args[0]), "layout"), "size")
        if n is size:
            rep.ok("stored-fetch", where)
        elif contains(n, size) or contains(n, T("typeinfo", p.args[0])) or n.op in ("int", "sizeof"):
            rep.bad("stored-fetch", where, "values are stepped over by %s" % short(n, 60))
        else:
            rep.und("stored-fetch", where, "step not recognised: %s" % short(n, 60))


@rule("C11")
def dynamic_unknown(an, rep):
    """A dynamic query is marked incomplete exactly when one of its components was never part of a group."""
    for r, g, where in roots(an, rep, DQ + "DynQuery::new"):
        cx = r.cx
        fetches = r.args[1]
        for s, v in r.rets():
            if tainted(cx, s.events) or v.op != "agg":
                rep.und("incomplete", where, "an unknown function runs on this path")
                continue
            inc = agg_field(v, "incomplete")
            if inc is None or inc.op != "lv" or inc not in cx.lvs:
                if inc is TRUE:
                    rep.check(has_fact(s, lambda f, b: b is False and f.op == "has"), "incomplete", where,
                              "a query is made empty although its components are known", undecided=True)
                else:
                    rep.und("incomplete", where, "not recognised")
                continue
            L, pos = cx.lvs[inc]
            i0 = cx.read(L.init, pos[0], pos[1])
            if i0 is TRUE:
                rep.bad("incomplete", where, "every query is empty")
                continue
            for st, _ in L.iters:
                f = cx.read(st, pos[0], pos[1])
                miss = has_fact(st, lambda x, b: b is False and x.op == "has" and map_named(x.args[0], "lock_lookup"))
                found = has_fact(st, lambda x, b: b is True and x.op == "has" and map_named(x.args[0], "lock_lookup"))
                if miss:
                    rep.check(f is TRUE, "incomplete", where, "a component the world does not know is not noticed", undecided=f.op not in ("lv", "bool") and f is not FALSE)
                elif f is TRUE:
                    if found or any(x.op == "vget" and x.args[0] is fetches and var == "EcsId" for x, var in st.variants.items()):
                        rep.bad("incomplete", where, "a query is made empty although its components are known")
                    else:
                        rep.und("incomplete", where, "reason not recognised")
                elif f is inc:
                    rep.ok("incomplete", where)
                else:
                    (rep.bad if f is FALSE else rep.und)("incomplete", where, "a missing component can be forgotten")


@rule("C13")
def locks_kept(an, rep):
    """No method of a query gives up or replaces a lock while the query is alive."""
    for path, wide in ((SQ + "StaticQuery::iter", "iter"), (SQ + "StaticQuery::get", None), (DQ + "DynQuery::iter", None),
                       (DQ + "DynQuery::column_iter", None)):
        for r, g, where in roots(an, rep, path, wide):
            kept(r, rep, where)
    known = {SQ + "StaticQuery::iter", SQ + "StaticQuery::get", DQ + "DynQuery::iter", DQ + "DynQuery::column_iter"}
    for k, f in an.prog.fns.items():
        ins = f.d.get("inputs") or []
        if f.body is None or f.path in known or "{closure" in f.path or not ins:
            continue
        t = ins[0]
        if t.get("k") == "ref" and t.get("mut") and t["t"].get("k") == "adt" and t["t"].get("path") in (SQ + "StaticQuery", DQ + "DynQuery"):
            r = an.root(f.path, key=k)
            if r is None:
                rep.und("lock-kept", f.path, "not analysed: %s" % an.errors.get(f.path))
            else:
                kept(r, rep, f.path)


def kept(r, rep, where):
    me = r.args[0]
    for s, v in r.rets() + r.panics():
        bad = False
        for e, ch in all_events(r.cx, s.events):
            if e[0] in ("w", "drop", "dropinplace") and isinstance(e[1], Term):
                if e[0] == "w" and e[1] is T("obj", me) and e[2] and e[2][0] is pf("_guards"):
                    bad = True
                if e[0] != "w" and any(t is T("fld", T("at", me), "_guards") for x in e[1:] if isinstance(x, Term) for t in subterms(x)):
                    bad = True
        rep.check(not bad, "lock-kept", where, "a lock held by the query is given up or replaced while it is alive")
