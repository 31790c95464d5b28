"""Rules about storage groups: which one is chosen (C08), how new ones are built (C07), registered (C09) and remembered (C10)."""
from .ops import *
from .rules_world import rule, RULES as _R

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


GROUP_OPS = ("add", "remove", "build")


def group_paths(an, rep, panics=False):
    for op in world_ops(an, rep):
        if op.kind in GROUP_OPS:
            for s, v in op.root.rets():
                yield op, s
            for s, v in op.root.panics() if panics else ():
                # rows of existing groups that a path changed before it panics
                if not placement(op, s)[2]:
                    yield op, s


class Need:
    """The required component set of an operation: a base id list, minus / plus one id; its size as a term."""
    def __init__(self, op, s):
        cx, W = op.cx, op.W
        self.plus, self.minus = [], None
        if op.kind == "build":
            self.base = op.ids
            self.S = None
            self.count = vlen(op.ids)
        else:
            m = vget(fld(T("at", W.args[0]), "ecs_id_meta"), uidx(op.entity), s)
            self.S = norm(s, instance(m)[0])
            self.base = fld(vget(fld(T("at", W.args[0]), "archetypes"), self.S, s), "comp_ids")
            self.count = add(vlen(self.base), I(1 if op.kind == "add" else -1))
            if op.kind == "add":
                self.plus = [op.comp]
            else:
                self.minus = op.comp


def placement(op, s):
    """(group index term, event) of the row the operation appends, or None."""
    cx, W = op.cx, op.W
    ops, new, odd = entity_ops(cx, s, W)
    if odd:
        return "odd", odd[0], new
    for idx, g, e in new:
        ents = fld(g, "entities")
        if ents.op == "agg" and len(ents.args) == 5:
            return idx, e, new
    for G, val, e in ops:
        if val.op == "vpush":
            return G, e, new
    return None, None, new


def bit_source(t):
    """The component id whose bit set a (word iterator, map) pair walks, and the map; None when not recognised."""
    if t.op != "agg" or t.args[0] != "tuple":
        return None
    it, f = t.args[4], t.args[5]
    if it.op != "agg" or not it.args[0].startswith("$it.slice"):
        return None
    r, p = refpath(fld(it, "base"))
    if r.op == "obj" and r.args[0].op == "bitvecref" and p == (pf("data"),):
        if fld(it, "pos") is not I(0) or fld(it, "end") is not vlen(T("fld", T("at", r.args[0]), "data")):
            return ("part", r.args[0].args[1], f)
        return ("bits", r.args[0].args[1], f)
    if r.op == "obj" and r.args[0].op == "vget" and p == (pf("data"),):
        # a bit set taken from a list of bit sets
        if fld(it, "pos") is not I(0) or fld(it, "end") is not vlen(T("fld", T("at", r.args[0]), "data")):
            return ("part", r.args[0], f)
        return ("bits", r.args[0], f)
    if p and p[-1] is pf("data") and p[-2:][0] is pf("entities_bitvec"):
        return ("entities", None, f)
    return None


def elements(cx, v, base=None):
    """Contents of a vector built by pushes and collecting loops: ('one', x) | ('gen', L, [(state, [x...])]) | ('all', base);
    None if unknown."""
    out = []
    while True:
        if base is not None and v is base:
            out.append(("all", v))
            return list(reversed(out))
        if v.op == "vpush":
            out.append(("one", v.args[1]))
            v = v.args[0]
        elif v.op == "vcomp":
            L = cx.loops.get(v.args[1])
            if L is None:
                return None
            its = []
            pos = None
            for p, hv in L.vals.items():
                if hv is v:
                    pos = p
            if pos is None:
                return None
            for s2, _ in L.iters:
                x = cx.read(s2, pos[0], pos[1])
                items = []
                while x is not v:
                    if x.op != "vpush":
                        return None
                    items.append(x.args[1])
                    x = x.args[0]
                its.append((s2, list(reversed(items))))
            out.append(("gen", L, its))
            v = v.args[0]
        elif v.op == "vnew":
            return list(reversed(out))
        elif v.op == "agg" and v.args[0] == "array":
            out += [("one", x) for x in reversed(v.args[4:])]
            return list(reversed(out))
        else:
            return None


def base_index(base, idt):
    """C such that idt is base[C] (looking through slices); None otherwise."""
    if idt.op == "vget" and idt.args[0] is base:
        return idt.args[1]
    return None


def cover(cx, s, items, need, idof, rep_fail):
    """Do the items name exactly the required ids?  items from elements(); idof maps an element to its id term.
    rep_fail(kind, why) with kind 'bad'|'und'.  True when shown."""
    singles, gens = [], 0
    for it in items:
        if it[0] == "one":
            i = idof(it[1])
            if i is None:
                rep_fail("und", "an element of unknown origin")
                return False
            singles.append(i)
            continue
        if it[0] == "all":
            if need.minus is not None:
                rep_fail("bad", "the removed component is not left out")
                return False
            gens += 1
            continue
        _, L, its = it
        d = derived_loop(cx, s, L, its, need, idof)
        if d is not None:
            if d[0] != "ok":
                rep_fail(*d)
                return False
            if len(items) > 1:
                rep_fail("und", "more elements next to a complete list")
                return False
            return True
        seq = []
        for st, xs in its:
            if len(xs) > 1:
                rep_fail("und", "several elements per iteration")
                return False
            if not xs:
                seq.append((st, None))
                continue
            i = idof(xs[0])
            C = base_index(need.base, i) if i is not None else None
            if C is None:
                rep_fail("und", "an element not taken from the required id list: %s" % short(i if i is not None else xs[0], 80))
                return False
            seq.append((st, C))
        if not cover_loop(cx, s, L, seq, need, rep_fail):
            return False
        gens += 1
    if gens == 0 and s.decide(le(vlen(need.base), I(0))) is not True:
        rep_fail("bad", "the ids of the entity's components are not included")
        return False
    if gens > 1:
        rep_fail("und", "several loops over the ids")
        return False
    if len(singles) != len(need.plus) or any(s.decide(eq(a, b)) is not True for a, b in zip(singles, need.plus)):
        rep_fail("bad", "the required set is not matched: extra ids [%s], expected [%s]" %
                 (", ".join(short(x, 40) for x in singles), ", ".join(short(x, 40) for x in need.plus)))
        return False
    return True


def covers(cx, s, D, need):
    """Does the list D (of ids, or of the bit sets of ids) hold exactly the required ids?"""
    els = elements(cx, D, need.base)
    if els is None or D is need.base:
        return False
    fails = []

    def idof(x):
        if x.op == "bitvecref":
            return x.args[1]
        if x.op == "obj" and x.args[0].op == "bitvecref":
            return x.args[0].args[1]
        if x.op == "ref":
            r, p = refpath(x)
            if r.op == "obj" and r.args[0].op == "bitvecref" and not p:
                return r.args[0].args[1]
            return None
        return x
    return cover(cx, s, els, need, idof, lambda k, w: fails.append(w)) and not fails


def derived_loop(cx, s, L, its, need, idof):
    """The loop walks another list that holds exactly the required ids: ("ok",) | (kind, why); None when it does not."""
    D, seq = None, []
    for st, xs in its:
        if len(xs) > 1:
            return None
        if not xs:
            seq.append((st, None))
            continue
        i = idof(xs[0])
        if i is None:
            return None
        while i.op in ("obj", "ref"):
            i = i.args[0]
        v, C = None, None
        if i.op == "vget" and i.args[0] is not need.base:
            v, C = i.args
        if v is None:
            return None
        if D is not None and v is not D:
            return None
        D = v
        seq.append((st, C))
    if D is None:
        return None
    if not covers(cx, s, D, need):
        return None
    en = enum_positions(cx, L, seq)
    if not en.ok:
        return ("und" if en.und else "bad", en.why)
    if en.skips:
        return ("bad", "an id of the required set is passed over")
    if not exhausted(s, en, vlen(D)):
        return ("bad", "the ids are not all visited")
    return ("ok",)


def cover_loop(cx, s, L, seq, need, rep_fail, check_end=True):
    en = enum_positions(cx, L, seq)
    if not en.ok:
        rep_fail("und" if en.und else "bad", en.why)
        return False
    if need.minus is None:
        if en.skips:
            rep_fail("bad", "an id of the required set is passed over")
            return False
    else:
        if not en.skips:
            rep_fail("bad", "the removed component is not left out")
            return False
        for st, C in en.skips:
            d = st.decide(eq(vget(need.base, C, st), need.minus))
            if d is not True:
                rep_fail("bad", "an id other than the removed component is passed over")
                return False
        for st, C in seq:
            if C is not None and st.decide(eq(vget(need.base, C, st), need.minus)) is not False:
                rep_fail("bad", "the removed component is not left out")
                return False
    if check_end and not exhausted(s, en, vlen(need.base)):
        rep_fail("bad", "the ids are not all visited")
        return False
    return True


def word_map(cx, f):
    """What a word map does to a word: 'id', 'not', 'other', or None when not recognised."""
    x = T("sym", "word")
    try:
        res = cx.apply(None, State(), f, [x], "")
    except (Unsupported, Budget):
        return None
    if len(res) != 1 or res[0][0] != "ret":
        return None
    v = res[0][2]
    if v is x:
        return "id"
    if v.op == "apply" or v.op == "sym":
        return None
    if v.op in ("bnot",) and v.args[0] is x:
        return "not"
    return "other"


def identity_fn(cx, f):
    m = word_map(cx, f)
    return None if m is None else m == "id"


def required(cx, st, i, need):
    """Is i one of the required ids?  None when its origin is unknown."""
    C = base_index(need.base, i)
    if C is not None:
        return need.minus is None or st.decide(eq(i, need.minus)) is False
    if any(st.decide(eq(i, x)) is True for x in need.plus):
        return True
    if need.minus is not None and st.decide(eq(i, need.minus)) is True:
        return False
    if i.op == "vget" and covers(cx, st, i.args[0], need):
        return True
    return None


def is_len(cx, st, x, need):
    """x is the length of a bit set: True when a required one's, False when another's, None when it is no such length."""
    if x.op == "trunc":
        x = x.args[0]
    if x.op != "fld" or x.args[1] != "len" or x.args[0].op != "at":
        return None
    v = x.args[0].args[0]
    if v.op == "bitvecref":
        return required(cx, st, v.args[1], need) is True
    if v.op == "vget":
        return True if covers(cx, st, v.args[0], need) else None
    return None


def limit_ok(cx, s, lim, need):
    """Is a length limit never below the smallest of the visited bit sets' lengths?  (True/False/None, why)"""
    base, fs = strip_lv(lim)
    if lim.op == "int":
        return (lim.args[0] >= 2**32 - 1, "the limit is the constant %d" % lim.args[0])
    d = is_len(cx, s, lim, need)
    if d is not None:
        return d, "the limit is the length of a bit set that is not required"
    if lim.op == "min":
        rs = [limit_ok(cx, s, x, need) for x in lim.args]
        return next((r for r in rs if r[0] is False), next((r for r in rs if r[0] is None), (True, "")))
    if any(is_len(cx, s, x, need) is not None for x in subterms(lim)) and lim.op == "lin":
        c, d = parts(lim)
        if c < 0 and len(d) == 1:
            return False, "the limit is below the length of a required bit set"
    if base.op != "lv" or base not in cx.lvs or fs not in ((), ("Some.0",)):
        return None, "limit of unknown origin %s" % short(lim, 80)
    L, pos = cx.lvs[base]
    i0 = cx.read(L.init, pos[0], pos[1])
    if fs:
        i0 = I(2 ** 32 - 1) if i0.op == "agg" and i0.args[2] == "None" else i0.args[4] if i0.op == "agg" else i0
    big = i0.op == "int" and i0.args[0] >= 2**32 - 1

    def lower(st, x):
        """never below the smallest length, given that the limit so far is not: True / False (another set's length) / None"""
        if x is lim or x.op == "int" and x.args[0] >= 2**32 - 1:
            return True
        if x.op == "min":
            rs = [lower(st, y) for y in x.args]
            return False if False in rs else None if None in rs else True
        return is_len(cx, st, x, need)
    growing = True
    for st, _ in L.iters:
        fv = cx.read(st, pos[0], pos[1])
        if fs:
            if fv.op == "agg" and fv.args[2] == "Some":
                fv = fv.args[4]
            elif fv is base:
                fv = lim
            elif fv.op == "agg":
                fv = I(2 ** 32 - 1)
            else:
                return None, "limit of unknown origin %s" % short(fv, 80)
        # every length this iteration looked at
        cand = {x for x in subterms(fv) if is_len(cx, st, x, need)}
        for p in st.ints[len(L.head.ints):]:
            for x in subterms(p):
                if is_len(cx, st, x, need):
                    cand.add(x)
        if fv is lim:
            growing = growing and any(st.decide(le(x, fv)) is True for x in cand)
            continue
        d = lower(st, fv)
        if d is False:
            return False, "the limit follows the length of a bit set that is not required"
        if d is None and not any(st.decide(le(x, fv)) is True for x in cand):
            if st.decide(le(lim, fv)) is not True:
                return False, "the limit can drop to %s, below the length of every required bit set" % short(fv, 80)
    if not big and not growing:
        return False, "the limit starts at %s" % short(i0, 40)
    return True, ""


def search_iters(an, op, s, it, need, rep, site, label):
    """The bit-set iterator of a search walks exactly the sets of the required ids."""
    cx = op.cx
    res = {"ok": True}

    def fail(kind, why):
        res["ok"] = False
        (rep.bad if kind == "bad" else rep.und)(label, site, "the group search: " + why)
    iters = fld(it, "iters")
    els = elements(cx, iters)
    if els is None:
        fail("und", "its bit sets are not recognised")
        return False
    kinds = []

    def idof(x):
        b = bit_source(x)
        if b is None or b[0] != "bits":
            return None
        f = identity_fn(cx, b[2])
        kinds.append(f)
        return b[1]
    ok_ = cover(cx, s, els, need, idof, fail)
    if ok_ and any(k is False for k in kinds):
        fail("bad", "a bit set is mapped before it is intersected")
    elif ok_ and any(k is None for k in kinds):
        fail("und", "the word map is not recognised")
    if res["ok"]:
        l, why = limit_ok(cx, s, fld(it, "bit_length"), need)
        if l is False:
            fail("bad", why)
        elif l is None:
            fail("und", why)
    return res["ok"]


def full_lists(cx, s, need):
    """The lists on this path that hold exactly the required ids."""
    seen, todo = [], list(s.ints)[-400:] + list(s.bools) + [x for e in s.eqs for x in e]
    todo += [e[1] for e in s.events if e[0] == "bitnext"]
    for L in loops_in(cx, s.events):
        todo += [x for x in L.vals.values() if x.op == "vcomp"]
        # lists walked by a loop
        todo += [b for st, _ in L.iters for b in st.bools if b not in L.head.bools]
    out = []
    for t in todo:
        for x in subterms(t):
            if (x.op == "vcomp" or x.op == "vpush" and x.args[0].op in ("vcomp", "vpush")) and x not in seen:
                seen.append(x)
                if covers(cx, s, x, need):
                    out.append(x)
    return out


def with_lists(cx, s, need):
    """The state plus the sizes of the lists that hold exactly the required ids."""
    for x in full_lists(cx, s, need):
        s2 = s.assume(eq(vlen(x), need.count, True))
        if s2 is None:
            return None
        s = s2
    return s


def count_of(op, G):
    return vlen(fld(vget(fld(T("at", op.W.args[0]), "archetypes"), G), "comp_ids"))


def failed_search(an, op, s, need, rep, site):
    """On a path that creates a group: the existing groups were searched for the required set without success."""
    cx = op.cx
    # a required component that no group has
    for b, v in s.bools.items():
        if b.op == "hasbits" and v is False and b.args[0].op == "fld" and b.args[0].args[1] == "archetype_bitset":
            i = b.args[1]
            if any(s.decide(eq(i, x)) is True for x in need.plus):
                return True
            C = base_index(need.base, i)
            if C is not None and (need.minus is None or s.decide(eq(i, need.minus)) is False):
                return True
            if i.op == "vget" and i.args[0] is not need.base and covers(cx, s, i.args[0], need):
                return True
    for e in s.events:
        if e[0] == "bitnext" and e[2] is None:
            if not search_iters(an, op, s, e[1], need, rep, site, "search-before-create"):
                return None
            # hits passed over do not have the required number of components
            for e2, chain in all_events(cx, s.events):
                pass
            for L in loops_in(cx, s.events):
                for st, _ in L.iters:
                    for e3 in L.events(st):
                        if e3[0] == "bitnext" and e3[2] is not None:
                            n = count_of(op, e3[2])
                            if st.decide(eq(n, need.count, True)) is not False and \
                                    not any(st.decide(eq(n, vlen(D), True)) is False for D in full_lists(cx, s, need)):
                                rep.bad("search-before-create", wh(op.root.fn.path, e3), "an existing group with the required set can be passed over")
                                return None
            return True
    return False


@rule("C08")
def target_group(an, rep):
    for op, s in group_paths(an, rep, True):
        cx, W = op.cx, op.W
        fn = op.root.fn.path
        if tainted(cx, s.events):
            rep.und("target", fn, "an unknown function runs on this path")
            continue
        G, e, new = placement(op, s)
        if G is None:
            rep.ok("no-placement", fn)
            continue
        if G == "odd":
            rep.und("target", wh(fn, e), "group list changed in a form not covered")
            continue
        site = wh(fn, e)
        need = Need(op, s)
        arch0 = fld(T("at", W.args[0]), "archetypes")
        if op.kind != "build":
            # the row that leaves is in the entity's recorded group
            ops, _, _ = entity_ops(cx, s, W)
            for g, val, e2 in ops:
                if val.op in ("vswaprm", "vrm", "vpop") and s.decide(eq(g, need.S, True)) is not True:
                    rep.bad("current-group", wh(fn, e2), "the entity is removed from group %s, its recorded group is %s" % (short(g, 60), short(need.S, 60)))
        # the same component must not be present / must be present
        if op.kind != "build":
            c = membership(s, need, op.comp)
            want = op.kind == "remove"
            if c is None:
                rep.bad("membership-known", site, "the target is chosen without knowing whether the entity has the component")
                continue
            if c is not want:
                rep.bad("membership-known", site, "the operation proceeds although the entity %s the component" % ("has" if c else "lacks"))
                continue
        s = with_lists(cx, s, need)
        if s is None:
            continue
        if new:
            if len(new) > 1:
                rep.bad("target", site, "two groups are created")
                continue
            idx, g, e2 = new[0]
            site2 = wh(fn, e2)
            if s.decide(eq(G, idx, True)) is not True:
                rep.bad("target", site, "a group is created but the entity is placed in group %s" % short(G, 80))
                continue
            sp = group_shape(an, op, s, g, need)
            if sp[0] == "bad":
                rep.bad("new-group-set", site2, sp[1])
            elif sp[0] == "und":
                rep.und("new-group-set", site2, sp[1])
            else:
                rep.ok("new-group-set", site2)
            if s.decide(le(need.count, I(0))) is not False and s.decide(le(vlen(arch0), I(0))) is not True:
                rep.bad("reuse", site2, "a second group without components can be created")
                continue
            if s.decide(le(vlen(arch0), I(0))) is True:
                rep.ok("first-group", site2)
                continue
            fs = failed_search(an, op, s, need, rep, site2)
            if fs is True:
                rep.ok("search-before-create", site2)
            elif fs is False:
                unk = any(ev[0] == "unknown" for ev, _ in all_events(cx, s.events))
                (rep.und if unk else rep.bad)("search-before-create", site2, "a group is created without having searched the existing ones for this set")
            continue
        hit = [ev for ev in s.events if ev[0] == "bitnext" and ev[2] is not None and s.decide(eq(ev[2], G, True)) is True]
        if G.op == "cached":
            r, idt = G.args
            root, p = refpath(r)
            g0 = prefix(p, "archetypes", "[]", "add_remove_cache")
            if root is not W or g0 is None or need.S is None:
                rep.und("remembered-target", site, "remembered target of unknown origin")
            elif s.decide(eq(g0[0], need.S, True)) is not True:
                rep.bad("remembered-target", site, "the remembered transition of another group (%s) is followed" % short(g0[0], 60))
            elif s.decide(eq(idt, op.comp)) is not True:
                rep.bad("remembered-target", site, "the remembered transition of another component is followed")
            else:
                rep.ok("remembered-target", site)
        elif hit:
            ev = hit[0]
            okk = search_iters(an, op, s, ev[1], need, rep, site, "found-group")
            if not okk:
                continue
            n = count_of(op, G)
            d = s.decide(eq(n, need.count, True))
            if d is True or s.decide(le(n, need.count)) is True:       # it has them all, and no more
                rep.ok("found-group", site)
            else:
                # is the set compared in another way?
                other = False
                g_ids = fld(vget(arch0, G), "comp_ids")
                for b, v in s.bools.items():
                    if b.op not in ("eq0", "le0") and contains(b, g_ids):
                        other = True
                for a, b in s.eqs:
                    if contains(a, g_ids) or contains(b, g_ids):
                        other = other or not (parts(a)[1] and is_int(a))
                (rep.und if other else rep.bad)("found-group", site, "the group found may have more components than required")
        elif G.op == "int" and G.args[0] == 0:
            if s.decide(le(need.count, I(0))) is True:
                rep.ok("empty-group", site)
            else:
                rep.bad("empty-group", site, "the group without components is chosen although components are required")
        elif G.op == "int" and not any(contains(x, vget(arch0, G)) for x in list(s.bools) + list(s.ints) + [y for ab in s.eqs for y in ab]):
            rep.bad("target", site, "group %s is chosen without regard to its components" % short(G))
        else:
            rep.und("target", site, "target group of unknown origin: %s" % short(G, 80))


def membership(s, need, comp):
    """Does the current group have the component, as far as this path knows?"""
    base = need.base
    g = base.args[0] if base.op == "fld" else None
    for b, v in s.bools.items():
        if b.op == "contains" and b.args[0] is base and s.same(b.args[1], comp):
            return v
        if b.op == "has" and g is not None and b.args[0] is fld(g, "comp_lookup") and s.same(b.args[1], comp):
            return v
    for a, b in s.eqs:
        for x, y in ((a, b), (b, a)):
            if x is comp and y.op == "vget" and y.args[0] is base:
                return True
    return None


# ---------------------------------------------------------------- construction of groups (C07 and the set part of C08)
def col_meta(cx, st, W, idt):
    """component_meta of id"""
    v = cx.read(st, W, (pf("ecs_id_meta"),))
    m = vfld(vget(v, uidx(idt), st), "Some", "0")
    return norm(st, fld(m, "component_meta"))


def type_info_ok(cx, st, W, ti, idt):
    """Does a TypeInfo value carry layout and destructor of the component id?  (True / False / None)"""
    r = _type_info_ok(cx, st, col_meta(cx, st, W, idt), ti)
    if r is not True:
        # as recorded when the operation began (component metadata is not changed by these operations)
        m = vfld(vget(fld(T("at", W.args[0]), "ecs_id_meta"), uidx(idt), st), "Some", "0")
        if _type_info_ok(cx, st, fld(m, "component_meta"), ti) is True:
            return True
    return r


def _type_info_ok(cx, st, cm, ti):
    if ti.op != "agg":
        return None
    lay, df = norm(st, fld(ti, "layout")), norm(st, fld(ti, "drop_fn"))
    wl, wd = fld(cm, "layout"), fld(cm, "drop_fn")
    if lay is not wl and st.decide(eq(lay, wl)) is not True:
        return False
    if df is wd or st.decide(eq(df, wd)) is True:
        return True
    v1, v2 = st.variant(df), st.variant(wd)
    if v1 == v2 == "None":
        return True
    if v1 == v2 == "Some" and vfld(df, "Some", "0") is vfld(wd, "Some", "0"):
        return True
    return False


def sort_order(v):
    """asc / other (recognised, but not ascending by id) / unknown"""
    how = v.args[2]
    if len(how) != 1 or "$" not in show(how[0]):
        return "unknown"
    s = show(how[0]).strip("()").replace("(", "").replace(")", "").replace(" ", "")
    if v.args[1] == "key":
        return "asc" if s in ("$a.0", "$a") else "other"
    if s in ("cmp$a.0,$b.0", "cmp$a,$b"):
        return "asc"
    return "other"


MANY = T("many")


def contents(v):
    """Peel sorting, pushes and removals off an id or column list: (core, adds, removed index, sorted?)"""
    adds, rm = [], None
    srt = None
    while True:
        if v.op in ("vsorted", "vsortby"):
            if srt is None and not adds:
                if v.op == "vsortby":
                    srt = sort_order(v)
                else:
                    srt = "asc"
            v = v.args[0]
        elif v.op == "vpush":
            adds.append(v.args[1])
            v = v.args[0]
        elif v.op == "vins":
            adds.append(("ins", v.args[1], v.args[2]))
            v = v.args[0]
        elif v.op == "vrm":
            rm = v.args[1] if rm is None else MANY
            v = v.args[0]
        else:
            return v, adds, rm, srt


def group_value(an, op, s, g, need):
    """For groups made by a constructor of their own (checked separately): what was asked for."""
    if g.op == "garch":
        return g.args[0], g.args
    return None, None


def group_shape(an, op, s, g, need):
    """Is the new group's component set the required one?  ('ok'|'bad'|'und', why)"""
    cx, W = op.cx, op.W
    if g.op == "with":
        g = g.args[0]
    if g.op == "garch":
        kind = g.args[0]
        want = {"add": "with", "remove": "without"}.get(op.kind)
        if kind != want:
            return "bad", "a group '%s' is created for an operation that needs '%s'" % (kind, want)
        r, p = refpath(g.args[1])
        gi = prefix(p, "archetypes", "[]")
        if r is not W or gi is None:
            return "und", "source group of unknown origin"
        if s.decide(eq(gi[0], need.S, True)) is not True:
            return "bad", "the new group is derived from group %s instead of the entity's" % short(gi[0], 60)
        if s.decide(eq(g.args[3], op.comp)) is not True:
            return "bad", "the new group differs in another component than the one operated on"
        return "ok", ""
    if g.op == "agg":
        ids = fld(g, "comp_ids")
        core, adds, rm, srt = contents(ids)
        if core is need.base and not adds and rm is None and not need.plus and need.minus is None:
            return "ok", ""
        if core is need.base and need.plus and len(adds) == 1 and not isinstance(adds[0], tuple) and s.decide(eq(adds[0], need.plus[0])) is True and rm is None:
            return "ok", ""
        if core is need.base:
            return ("bad", "the new group's ids are not the required set") if not (need.minus is not None and rm is not None) else ("und", "ids of unknown form")
        els = elements(cx, core)
        if els is not None:
            out = []
            cover(cx, s, els + [("one", a) for a in adds if not isinstance(a, tuple)], need, lambda x: x, lambda k, w: out.append((k, w)))
            if not out:
                return "ok", ""
            return out[0]
        return "und", "ids of unknown form"
    return "und", "a group of unknown origin"


def check_group(an, rep, cx, s, g, W, src, kind, extra, site, need_meta):
    """C07 for a group value.  kind: copy / with / without (relative to group value `src`) or staged (src = staged ids).
    extra: the added/removed id (and its TypeInfo for 'with')."""
    ids, cols, lut, ents = (fld(g, n) for n in ("comp_ids", "component_storages", "comp_lookup", "entities"))
    base_ids = src if kind == "staged" else fld(src, "comp_ids")
    # ---- ids
    core, adds, rm, srt = contents(ids)
    okids = True

    def bad(r, why):
        rep.bad(r, site, why)

    gen_ids = None
    if rm is MANY:
        bad("ids", "more than one id is removed from the list")
        return
    if core is not base_ids:
        els = elements(cx, core)
        n = Need.__new__(Need)
        n.base, n.plus, n.minus = base_ids, [], extra[0] if kind == "without" and rm is None else None
        out = []
        if els is None:
            rep.und("ids", site, "id list of unknown form %s" % short(core, 80))
            return
        cover(cx, s, els, n, lambda x: x, lambda k, w: out.append((k, w)))
        if out:
            (rep.bad if out[0][0] == "bad" else rep.und)("ids", site, "id list: " + out[0][1])
            return
        gen_ids = n.minus is not None
    if any(isinstance(a, tuple) for a in adds):
        rep.und("ids", site, "insertion at a computed position")
        return
    want_add = [extra[0]] if kind == "with" else []
    if len(adds) != len(want_add) or any(s.decide(eq(a, b)) is not True for a, b in zip(adds, want_add)):
        bad("ids", "ids added: [%s], required: [%s]" % (", ".join(short(a, 40) for a in adds), ", ".join(short(a, 40) for a in want_add)))
        return
    if kind == "without" and not gen_ids:
        if rm is None:
            bad("ids", "the removed component stays in the id list")
            return
        if s.decide(eq(vget(base_ids, rm, s), extra[0])) is not True:
            bad("ids", "the id removed from the list is not the removed component")
            return
    elif rm is not None:
        bad("ids", "an id is removed from the list")
        return
    needs_sort = bool(adds) or kind == "staged"
    if srt == "unknown":
        rep.und("ids-sorted", site, "order of unknown form")
    elif srt == "other" or (needs_sort and srt != "asc"):
        bad("ids-sorted", "the id list is not sorted by id")
    else:
        rep.ok("ids", site)
    # ---- columns
    ccore, cadds, crm, csrt = contents(cols)
    if crm is MANY:
        bad("columns", "more than one column is removed")
        return
    if any(isinstance(a, tuple) for a in cadds):
        rep.und("columns", site, "insertion at a computed position")
        return
    els = elements(cx, ccore)
    if els is None:
        rep.und("columns", site, "column list of unknown form %s" % short(ccore, 80))
        return
    n = Need.__new__(Need)
    n.base, n.plus, n.minus = base_ids, [], extra[0] if kind == "without" and crm is None else None
    out = []
    colinfo = {"ok": True}

    def idof(x):
        if x.op == "agg" and x.args[0] == "tuple":
            return x.args[4]
        return None
    gens = [e for e in els if e[0] == "gen"]
    cover(cx, s, els, n, idof, lambda k, w: out.append((k, w)))
    if out:
        (rep.bad if out[0][0] == "bad" else rep.und)("columns", site, "columns: " + out[0][1])
        return
    for _, L, its in gens:
        for st, xs in its:
            for x in xs:
                i, c = x.args[4], x.args[5]
                if c.op == "uvnew":
                    ti = c.args[0]
                    if ti.op == "typeinfo":
                        cr = refpath(ti.args[0])
                        cc = cr[1][-2:] if len(cr[1]) >= 2 else ()
                        ix = cr[1][-2].args[0] if len(cr[1]) >= 2 and cr[1][-2].op == "pi" else None
                        if ix is None:
                            rep.und("column-type", site, "type information of unknown origin")
                        elif vget(base_ids, ix, st) is i or st.decide(eq(vget(base_ids, ix, st), i)) is True:
                            rep.ok("column-type", site)
                        else:
                            bad("column-type", "the column of one component is created with the type of another")
                    elif kind == "staged":
                        t = type_info_ok(cx, st, W, ti, i)
                        if t is True:
                            rep.ok("column-type", site)
                        elif t is False:
                            bad("column-type", "a column is created with layout or destructor other than its component's: %s" % short(ti, 120))
                        else:
                            rep.und("column-type", site, "type information of unknown origin")
                    else:
                        rep.und("column-type", site, "type information of unknown origin")
                else:
                    rep.und("column-type", site, "column of unknown origin %s" % short(c, 60))
    if kind == "with":
        if len(cadds) != 1 or cadds[0].op != "agg" or s.decide(eq(cadds[0].args[4], extra[0])) is not True:
            bad("columns", "the added component's column is missing or not under its id")
            return
        c = cadds[0].args[5]
        if c.op == "uvnew" and c.args[0] is extra[1]:
            rep.ok("column-type", site)
        elif c.op == "uvnew":
            bad("column-type", "the added component's column is created with another type: %s" % short(c.args[0], 80))
        else:
            rep.und("column-type", site, "column of unknown origin")
    elif cadds:
        bad("columns", "a column is added")
        return
    if crm is not None:
        if kind != "without" or s.decide(eq(vget(base_ids, crm, s), extra[0])) is not True:
            bad("columns", "the column removed is not the removed component's")
            return
    csort = bool(cadds) or kind == "staged"
    if csrt == "unknown":
        rep.und("columns-sorted", site, "order of unknown form")
    elif csrt == "other" or (csort and csrt != "asc"):
        bad("columns-sorted", "the columns are not sorted by id")
    else:
        rep.ok("columns", site)
    # ---- lookup
    if lut.op == "mcomp":
        L = cx.loops.get(lut.args[1])
        seq = []
        badl = None
        if lut.args[0].op != "mnew":
            badl = "the lookup keeps entries of another group"
        pos = next((p for p, hv in L.vals.items() if hv is lut), None)
        for st, _ in L.iters:
            x = cx.read(st, pos[0], pos[1])
            if x is lut:
                seq.append((st, None))
                continue
            if x.op != "mins" or x.args[0] is not lut:
                badl = "lookup of unknown form"
                break
            k, v = x.args[1], x.args[2]
            if st.decide(eq(vget(ids, v, st), k)) is not True and vget(ids, v, st) is not k:
                badl = "the lookup maps an id to position %s, which holds another component" % short(v, 60)
                break
            C = base_index(ids, k)
            if C is None:
                # keyed by the column list
                C = v
            seq.append((st, C))
        if badl:
            bad("lookup", badl)
        else:
            en = enum_positions(cx, L, seq)
            if not en.ok:
                (rep.und if en.und else rep.bad)("lookup", site, en.why)
            elif en.skips:
                bad("lookup", "an id is left out of the lookup")
            elif not exhausted(s, en, vlen(ids)):
                bad("lookup", "the loop filling the lookup can end early")
            else:
                rep.ok("lookup", site)
    elif kind == "copy" and lut is fld(src, "comp_lookup"):
        rep.ok("lookup", site)
    elif kind != "copy" and lut.op == "fld":
        bad("lookup", "the lookup of the source group is kept")
    elif lut is T("mnew"):
        if s.decide(eq(vlen(ids), I(0), True)) is True:
            rep.ok("lookup", site)
        else:
            bad("lookup", "the lookup is left empty")
    else:
        rep.und("lookup", site, "lookup of unknown form %s" % short(lut, 60))
    # ---- initial rows
    if kind != "staged":
        rep.check(ents is T("vnew") or (ents.op == "agg" and len(ents.args) == 4), "no-rows", site, "a derived group starts with rows", undecided=ents.op not in ("fld", "agg"))
    cache = fld(g, "add_remove_cache")
    if cache.op == "fld":
        bad("no-remembered", "the new group starts with the remembered transitions of another group")


CTORS = (("copy", AR + "from_archetype", 0), ("with", AR + "from_archetype_with", 2), ("without", AR + "from_archetype_without", 1))


@rule("C07")
def constructors(an, rep):
    anyc = False
    for kind, path, _ in CTORS:
        if not an.has(path):
            rep.und("constructor", path, "not present")
            continue
        r = an.root(path, inline=(AR + "from_archetype",), tag="ctor")
        if r is None:
            rep.und("constructor", path, an.errors.get(path))
            continue
        rep.functions.add(path)
        rep.functions |= set(r.cx.inlined)
        rep.paths += len(r.res)
        src = T("at", r.args[0])
        extra = {"copy": (), "with": (r.args[2], r.args[1]) if len(r.args) > 2 else (), "without": (r.args[1],) if len(r.args) > 1 else ()}[kind]
        for s, v in r.rets():
            anyc = True
            if v.op != "agg":
                rep.und("constructor", path, "result of unknown form %s" % short(v, 60))
                continue
            check_group(an, rep, r.cx, s, v, None, src, kind, extra, path, False)
    if an.has(AR + "from_archetype_with"):
        # caches of group paths are only consulted elsewhere
        pass


@rule("C07")
def group_creations(an, rep):
    for op, s in group_paths(an, rep):
        cx, W = op.cx, op.W
        fn = op.root.fn.path
        G, e, new = placement(op, s)
        if G == "odd":
            rep.und("group-list", wh(fn, e), "group list changed in a form not covered")
            continue
        need = Need(op, s)
        for idx, g, ev in new:
            site = wh(fn, ev)
            if g.op == "garch":
                if g.args[0] == "with":
                    t = type_info_ok(cx, s, W, g.args[4], g.args[3])
                    if t is True:
                        rep.ok("column-type", site)
                    elif t is False:
                        rep.bad("column-type", site, "the new column is created with layout or destructor other than the component's: %s" % short(g.args[4], 120))
                    else:
                        rep.und("column-type", site, "type information of unknown origin")
                else:
                    rep.ok("derived-group", site)
            elif g.op == "agg":
                ents = fld(g, "entities")
                if op.kind == "build":
                    check_group(an, rep, cx, s, g, W, op.ids, "staged", (), site, True)
                    staged_pushes(an, rep, cx, s, g, op, site)
                else:
                    r0 = vget(fld(T("at", W.args[0]), "archetypes"), need.S, s)
                    if op.kind == "add":
                        cadds = contents(fld(g, "component_storages"))[1]
                        ti = cadds[0].args[5].args[0] if len(cadds) == 1 and not isinstance(cadds[0], tuple) and cadds[0].op == "agg" and cadds[0].args[5].op == "uvnew" else None
                        check_group(an, rep, cx, s, g, W, r0, "with", (op.comp, ti), site, True)
                        if ti is not None:
                            t = type_info_ok(cx, s, W, ti, op.comp)
                            (rep.ok if t else rep.bad if t is False else rep.und)("column-type", site, "the new column is created with another type")
                    else:
                        check_group(an, rep, cx, s, g, W, r0, "without", (op.comp,), site, True)
            else:
                rep.und("group", site, "a group of unknown origin")
        # the fields that describe a group never change afterwards
        for ev, ch in all_events(cx, s.events):
            if ev[0] == "w" and ev[1] is W and len(ev[2]) >= 3 and ev[2][0] is ARCH and ev[2][2] in (pf("comp_ids"), pf("comp_lookup"), pf("component_storages")):
                if len(ev[2]) == 3 or ev[2][2] is not pf("component_storages"):
                    rep.bad("group-immutable", wh(fn, ev), "an existing group's %s is changed" % ev[2][2].args[0])


def staged_pushes(an, rep, cx, s, g, op, site):
    """A group created by a builder starts with one row: each column receives exactly one value (C05 for new groups)."""
    ccore, cadds, crm, csrt = contents(fld(g, "component_storages"))
    els = elements(cx, ccore)
    for el in els or ():
        if el[0] != "gen":
            continue
        _, L, its = el
        for st, xs in its:
            n = len([e for e in L.events(st) if e[0] == "uv.push_raw"])
            if xs:
                rep.check(n == len(xs), "one-row-per-column", site, "%d values are pushed to a new column of a group with one row" % n,
                          undecided=n == 0 and any(e[0] == "uv.push_raw" for e, c in all_events(cx, s.events)))


@rule("C05")
def new_group_rows(an, rep):
    for op, s in group_paths(an, rep):
        if op.kind != "build":
            continue
        G, e, new = placement(op, s)
        for idx, g, ev in new:
            if g.op == "agg":
                staged_pushes(an, rep, op.cx, s, g, op, wh(op.root.fn.path, ev))


# ---------------------------------------------------------------- registration (C09)
@rule("C09")
def registration(an, rep):
    for op, s in group_paths(an, rep):
        cx, W = op.cx, op.W
        fn = op.root.fn.path
        if tainted(cx, s.events):
            rep.und("registration", fn, "an unknown function runs on this path")
            continue
        G, e, new = placement(op, s)
        if G == "odd":
            rep.und("registration", wh(fn, e), "group list changed in a form not covered")
            continue
        evs = list(all_events(cx, s.events))
        sets = [(x, ch) for x, ch in evs if x[0] == "bits.set"]
        pushes = [(x, ch) for x, ch in evs if x[0] in ("bitvec.push", "bitvec.set")]
        other = [x for x, ch in evs if x[0] in ("bits.push2", "bits.insert")]
        if other:
            rep.und("registration", wh(fn, other[0]), "bit sets changed in a form not covered")
            continue
        if not new:
            if sets:
                rep.bad("registration", wh(fn, sets[0][0]), "a group is registered although none is created")
            elif pushes:
                rep.bad("registration", wh(fn, pushes[0][0]), "the list of all groups changes although none is created")
            else:
                rep.ok("nothing-registered", fn)
            continue
        need = Need(op, s)
        idx, g, ev = new[0]
        site = wh(fn, ev)
        gids = fld(g, "comp_ids")
        # every id of the group, under the group's own position
        pos_ok = True
        for x, ch in sets:
            r, p = refpath(x[1])
            if r is not W or p != (pf("archetype_bitset"),):
                rep.und("registration", wh(fn, x), "bit set of unknown origin")
                pos_ok = False
        items = []
        for L in loops_in(cx, s.events):
            its = []
            n = 0
            for st, _ in L.iters:
                xs = [x for x in L.events(st) if x[0] == "bits.set"]
                n += len(xs)
                its.append((st, [x[2] for x in xs]))
                for x in xs:
                    if st.decide(eq(x[3], idx, True)) is not True:
                        rep.bad("own-position", wh(fn, x), "the group is registered under position %s, its position is %s" % (short(x[3], 60), short(idx, 60)))
                        pos_ok = False
                    if st.decide(x[4]) is not True:
                        rep.bad("own-position", wh(fn, x), "the registration bit is not set")
                        pos_ok = False
            if n:
                items.append(("gen", L, its))
        for x in s.events:
            if x[0] == "bits.set":
                items.append(("one", x[2]))
                if s.decide(eq(x[3], idx, True)) is not True or s.decide(x[4]) is not True:
                    rep.bad("own-position", wh(fn, x), "the group is registered under position %s" % short(x[3], 60))
                    pos_ok = False
        out = []
        full = Need.__new__(Need)
        full.base, full.plus, full.minus = gids, [], None
        cover(cx, s, items, full, lambda x: x, lambda k, w: out.append((k, w)))
        if out and out[0][0] == "und":
            out2 = []
            cover(cx, s, items, need, lambda x: x, lambda k, w: out2.append((k, w)))
            if out2 and out2[0][0] == "und" and op.kind == "build":
                # ids in sorted order
                pass
            out = out2
        if out:
            (rep.bad if out[0][0] == "bad" else rep.und)("all-components", site, "registering the group's components: " + out[0][1])
        elif pos_ok:
            rep.ok("all-components", site)
        # list of all groups
        good = [x for x, ch in pushes if x[0] == "bitvec.push" and not ch and refpath(x[1]) == (W, (pf("entities_bitvec"),)) and s.decide(x[2]) is True]
        setg = [x for x, ch in pushes if x[0] == "bitvec.set" and not ch and refpath(x[1]) == (W, (pf("entities_bitvec"),)) and s.decide(x[3]) is True
                and s.decide(eq(x[2], idx, True)) is True]
        if len(good) + len(setg) == 1 and len(pushes) == 1:
            rep.ok("all-groups", site)
        else:
            rep.bad("all-groups", wh(fn, pushes[0][0]) if pushes else site, "the new group is %s to the list of all groups" % ("not added" if not pushes else "added wrongly"))
        # locks
        locks(an, rep, op, s, need, site)


def lock_ok(cx, st, events, W, idt):
    """After these events, does id have a lock?  True / (False, why) / None"""
    lut0 = fld(T("at", W.args[0]), "lock_lookup")
    entered = created = None
    for e in events:
        if e[0] != "w" or e[1] is not W:
            continue
        if e[2] == (pf("lock_lookup"),) and e[3].op == "mins":
            m, k, v = e[3].args
            if st.decide(eq(k, idt)) is not True:
                return (False, "a lock is entered for another id", e)
            if m.op in ("mins",) or entered:
                return (False, "two locks are entered", e)
            if st.decide(T("has", m, k)) is not False:
                return (False, "an existing lock may be replaced", e)
            entered = (v, e)
        elif e[2] == (pf("locks"),):
            if e[3].op != "vpush":
                return None
            if created:
                return (False, "two locks are created", e)
            created = (vlen(e[3].args[0]), e)
    if entered and created:
        # in either order
        if st.decide(eq(entered[0], created[0], True)) is not True:
            return (False, "the id is assigned lock %s, the new lock is number %s" % (short(entered[0], 50), short(created[0], 50)), created[1])
        return True
    if created:
        return (False, "a lock is created but not assigned to the id", created[1])
    if entered:
        return (False, "the id is assigned lock %s but none is created" % short(entered[0], 50), entered[1])
    for b, v in st.bools.items():
        if b.op == "has" and v is True and contains(b.args[0], lut0) and st.decide(eq(b.args[1], idt)) is True:
            return True
        if b.op == "has" and v is True and st.decide(eq(b.args[1], idt)) is True:
            return True
    return (False, "no lock is created for it and none is known to exist", None)


def locks(an, rep, op, s, need, site):
    cx, W = op.cx, op.W
    fn = op.root.fn.path
    if op.kind == "remove":
        for e, ch in all_events(cx, s.events):
            if e[0] == "w" and e[1] is W and e[2] and e[2][0] in (pf("lock_lookup"), pf("locks")):
                rep.und("locks", wh(fn, e), "locks change on removal")
                return
        rep.ok("locks", site)
        return
    if op.kind == "add":
        loops = [L for L in loops_in(cx, s.events) if any(e[0] == "w" and e[1] is W and e[2] and e[2][0] in (pf("lock_lookup"), pf("locks"))
                                                       for st, _ in L.iters for e in L.events(st))]
        if loops:
            # a loop over all ids of the new group is as good
            lock_loop(an, rep, op, s, need, loops[0], site)
            return
        l = lock_ok(cx, s, s.events, W, op.comp)
        if l is True:
            rep.ok("locks", site)
        elif l is None:
            rep.und("locks", site, "locks change in a form not covered")
        else:
            rep.bad("locks", wh(fn, l[2]) if l[2] else site, "lock of the added component: " + l[1])
        return
    loops = []
    for L in loops_in(cx, s.events):
        for st, _ in L.iters:
            if any(e[0] == "w" and e[1] is W and e[2] and e[2][0] in (pf("lock_lookup"), pf("locks")) for e in L.events(st)) or \
                    any(b.op == "has" and b.args[0].op == "fld" and b.args[0].args[1] == "lock_lookup" for b in st.bools if b not in L.head.bools):
                loops.append(L)
                break
    if not loops:
        if s.decide(le(vlen(need.base), I(0))) is True:
            rep.ok("locks", site)
            return
        # the loop may be there but summarised as never entered
        rep.bad("locks", site, "no locks are created for the components of the new group")
        return
    lock_loop(an, rep, op, s, need, loops[0], site)


def lock_loop(an, rep, op, s, need, L, site):
    cx, W = op.cx, op.W
    fn = op.root.fn.path
    seq = []
    for st, _ in L.iters:
        evs = L.events(st)
        # the id this iteration deals with
        idt = None
        for e in evs:
            if e[0] == "w" and e[1] is W and e[2] == (pf("lock_lookup"),) and e[3].op == "mins":
                idt = e[3].args[1]
        if idt is None:
            for b, v in st.bools.items():
                if b.op == "has" and v is True and b not in L.head.bools and b.args[0].op in ("fld", "mcomp", "mins", "lv"):
                    idt = b.args[1]
        if idt is None:
            rep.und("locks", site, "an iteration without a recognised id")
            return
        l = lock_ok(cx, st, evs, W, idt)
        if l is None:
            rep.und("locks", site, "locks change in a form not covered")
            return
        if l is not True:
            rep.bad("locks", wh(fn, l[2]) if l[2] else site, "lock of a component: " + l[1])
            return
        C = None
        for core in (need.base,):
            C = base_index(core, idt)
            if C is None and idt.op == "vget":
                C = idt.args[1] if contents(idt.args[0])[0] is core else None
        if C is None:
            rep.und("locks", site, "ids of unknown origin")
            return
        seq.append((st, C))
    out = []
    cover_loop(cx, s, L, seq, need, lambda k, w: out.append((k, w)))
    if out:
        (rep.bad if out[0][0] == "bad" else rep.und)("locks", site, "locks of the new group's components: " + out[0][1])
    else:
        rep.ok("locks", site)


# ---------------------------------------------------------------- remembered transitions (C10)
@rule("C10")
def remembered(an, rep):
    for op, s in group_paths(an, rep):
        cx, W = op.cx, op.W
        fn = op.root.fn.path
        evs = [(e, ch) for e, ch in all_events(cx, s.events) if e[0] in ("cache.insert", "cache.lookup")]
        if not evs:
            continue
        if tainted(cx, s.events):
            rep.und("remembered", fn, "an unknown function runs on this path")
            continue
        if op.kind == "build":
            rep.bad("remembered", wh(fn, evs[0][0]), "building an entity touches remembered transitions")
            continue
        need = Need(op, s)
        G, e0, new = placement(op, s)
        c = membership(s, need, op.comp)
        for e, ch in evs:
            site = wh(fn, e)
            r, p = refpath(e[1])
            g0 = prefix(p, "archetypes", "[]", "add_remove_cache")
            if r is not W or g0 is None:
                rep.und("remembered", site, "transition store of unknown origin")
                continue
            if e[0] == "cache.lookup":
                if G is None or G == "odd" or G.op != "cached":
                    continue
                rep.check(c is (op.kind == "remove"), "direction", site,
                          "a transition is looked up without it being known whether the group has the component, so an addition and a removal cannot be told apart")
                continue
            if G is None or G == "odd":
                rep.bad("remembered", site, "a transition is remembered on a path that moves no entity")
                continue
            good = s.decide(eq(e[3], G, True)) is True
            if s.decide(eq(g0[0], need.S, True)) is not True:
                # remembering the way back is right as well
                back = s.decide(eq(g0[0], G, True)) is True and s.decide(eq(e[3], need.S, True)) is True
                if back and s.decide(eq(e[2], op.comp)) is not True:
                    rep.bad("remembered", site, "the way back is remembered under another component")
                elif back and c is not (op.kind == "remove"):
                    rep.bad("direction", site, "the way back is remembered without knowing whether the group had the component")
                else:
                    rep.check(back, "remembered", site, "the transition of group %s is recorded in group %s" % (short(need.S, 40), short(g0[0], 40)))
                continue
            if s.decide(eq(e[2], op.comp)) is not True:
                rep.bad("remembered", site, "the transition is remembered under another component")
            elif not good:
                rep.bad("remembered", site, "group %s is remembered, the entity moves to group %s" % (short(e[3], 60), short(G, 60)))
            elif c is not (op.kind == "remove"):
                rep.bad("direction", site, "a transition is remembered without knowing whether the group has the component")
            else:
                rep.ok("remembered", site)
