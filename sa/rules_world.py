"""Rules about the operations that move entities between storage groups (C04, C05, C06, C08, C09)."""
from .ops import *

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


KINDTXT = {"add": "add component", "remove": "remove component", "despawn": "despawn", "build": "build entity"}


def each_path(an, rep):
    for op in world_ops(an, rep):
        for s, v in op.root.rets():
            yield op, s, v


# ---------------------------------------------------------------- C04
@rule("C04")
def locations(an, rep):
    for op, s, v in each_path(an, rep):
        cx, W = op.cx, op.W
        fn = op.root.fn.path
        ops, new, odd = entity_ops(cx, s, W)
        if tainted(cx, s.events):
            rep.und("location", fn, "an unknown function runs on this path")
            continue
        metaw = [e for e, ch in all_events(cx, s.events) if e[0] == "w" and e[1] is W and e[2] and e[2][0] is pf("ecs_id_meta")]
        if odd:
            rep.und("location", wh(fn, odd[0]), "entity list changed in a form not covered")
            continue
        if not ops and not new:
            if metaw:
                inst = [e for e in metaw if len(e[2]) < 2 or not (len(e[2]) > 4 and e[2][4] is pf("component_meta"))]
                if inst:
                    rep.bad("location", wh(fn, inst[0]), "records a location although no entity list changes")
            elif op.kind == "build":
                rep.bad("location", fn, "the new entity is placed in no group")
            elif any(e[0] == "ent.despawn" for e, ch in all_events(cx, s.events)):
                rep.bad("location", fn, "the row of the despawned entity stays in its group")
            else:
                rep.ok("location-unchanged", fn)
            continue
        moved = []
        placed = None
        removed_row = False
        for G, val, e in ops:
            if val.op == "vpush":
                placed = (val.args[1], G, vlen(val.args[0]), e)
            elif val.op in ("vswaprm", "vrm", "vpop"):
                removed_row = True
                base = val.args[0]
                row = val.args[1] if len(val.args) > 1 else sub(vlen(base), I(1))
                last = sub(vlen(base), I(1))
                if val.op == "vrm":
                    rep.bad("location", wh(fn, e), "removing a row shifts every later row, whose locations are not updated")
                    continue
                gone = vget(base, row, s)
                if op.entity is not None and s.decide(eq(gone, op.entity)) is False:
                    rep.bad("location", wh(fn, e), "removes the row of another entity")
                if s.decide(le(last, row)) is True:
                    rep.ok("last-row-removed", wh(fn, e))
                else:
                    moved.append((vget(base, last, s), G, row, e, base))
            else:
                rep.und("location", wh(fn, e), "entity list changed in a form not covered: " + val.op)
        for idx, g, e in new:
            ents = fld(g, "entities")
            if ents.op == "agg" and ents.args[0] == "array":
                if len(ents.args) == 5:
                    placed = (ents.args[4], idx, I(0), e)
                elif len(ents.args) != 4:
                    rep.bad("location", wh(fn, e), "a new group starts with %d rows" % (len(ents.args) - 4))
        # an entity swapped into the gap differs from the removed one, so it has another slot
        s0 = s
        if op.entity is not None:
            for x, *_ in moved:
                s = entity_row_fact(s, x, op.entity) or s
        # the entity itself
        if op.kind == "despawn":
            m = final_meta(cx, s, W, op.entity)
            if ops:
                rep.check(s.variant(m) == "None", "despawned-has-no-location", fn,
                          "the despawned entity keeps a recorded location: %s" % short(m),
                          undecided=s.variant(m) is None and m.op not in ("vget",))
        if placed is not None:
            x, G, row, e = placed
            if s.decide(eq(x, op.entity)) is not True:
                rep.bad("location", wh(fn, e), "a row is appended for %s instead of the entity operated on" % short(x))
            m = final_meta(cx, s, W, x)
            a, i = instance(m, s)
            site = wh(fn, e)
            good = s.decide(eq(a, G, True)) is True and s.decide(eq(i, row, True)) is True
            if not good:
                if s.decide(eq(a, G, True)) is not True:
                    rep.bad("location-of-entity", site, "the entity's recorded group is %s, its row is in group %s" % (short(a), short(G)))
                else:
                    rep.bad("location-of-entity", site, "the entity's recorded row is %s, it is in row %s" % (short(i), short(row)))
            else:
                rep.ok("location-of-entity", site)
        elif op.kind != "despawn" and ops:
            rep.bad("location", fn, "the entity leaves its group and is placed nowhere")
        for x, G, row, e, base in moved:
            s2 = s
            m = final_meta(cx, s2, W, x)
            a, i = instance(m, s2)
            site = wh(fn, e)
            init_m = vget(fld(T("at", W.args[0]), "ecs_id_meta"), uidx(x), s2)
            a0 = instance(init_m)[0]
            if s2.decide(eq(i, row, True)) is not True:
                rep.bad("location-of-moved", site,
                        "the last entity of the group moves to row %s but its recorded row is %s" % (short(row), short(i, 80)))
            elif not (a is a0 or s2.decide(eq(a, G, True)) is True or s2.decide(eq(a, a0, True)) is True):
                rep.bad("location-of-moved", site, "the moved entity's recorded group becomes %s" % short(a, 80))
            else:
                rep.ok("location-of-moved", site)


@rule("C11")
def no_dead_rows(an, rep):
    """What a query visits are rows: the row of an entity goes when the entity does."""
    for op, s, v in each_path(an, rep):
        cx, fn = op.cx, op.root.fn.path
        if op.kind != "despawn" or not any(e[0] == "ent.despawn" for e, ch in all_events(cx, s.events)):
            continue
        ops, new, odd = entity_ops(cx, s, op.W)
        if tainted(cx, s.events) or odd:
            rep.und("dead-rows", fn, "entity list changed in a form not covered")
        else:
            rep.check(any(val.op in ("vswaprm", "vrm", "vpop") for G, val, e in ops), "dead-rows", fn,
                      "the row of the despawned entity stays in its group, where queries visit it")


# ---------------------------------------------------------------- transfers of columns (C05, C06)
def absent(op, st, cid, other):
    """Does the path know that the other group has no column for a component?  Then it is the one that makes the difference."""
    lists = [op.cx.read(st, op.W, (ARCH, pi(x), pf(n))) for x in other for n in ("comp_lookup", "comp_ids")]
    for f, b in st.bools.items():
        if b is False and f.op in ("has", "contains") and len(f.args) > 1 and any(f.args[0] is x for x in lists) and (
                f.args[1] is cid or st.decide(eq(f.args[1], cid)) is True):
            return True
    return False


def skips_only(op, s, W, G, en, want, other=None):
    """Every position the enumeration of group G passes over holds the component `want` (True/False/None)."""
    res = True
    for st, C in en.skips:
        ids = group_ids(op.cx, st, W, G)
        d = st.decide(eq(vget(ids, C, st), want)) if want is not None else False
        if d is None and other is not None and absent(op, st, vget(ids, C, st), other):
            d = True
        if d is False:
            return False
        if d is None:
            # a skipped position about which nothing is known
            res = False if res else res
    return res


class Transfer:
    """Classified column operations of one path of an operation."""


def piecewise(op, W, sides, enums, skipside, comp):
    """A walk of the smaller group where position i belongs to position i or i + 1 of the other, depending on whether i is before
    the position of the changed component.  Returns (verdict, operation) or None when the walk has another form."""
    if skipside is None or len(sides) != 2:
        return None
    k = "in" if skipside == "out" else "out"
    en = enums[k]
    if not en.ok or en.skips or en.hv is None:
        return None
    G, seq = sides[skipside]
    offs = []
    for st, C, o in seq:
        if C is None:
            return None
        c, m = parts(sub(C, en.hv))
        if m or c not in (0, 1):
            return None
        offs.append(c)
    if len(set(offs)) < 2:
        return None
    res = True
    for (st, C, o), c in zip(seq, offs):
        ids = group_ids(op.cx, st, W, G)
        cands = set(a for q in st.ints for a in parts(q)[1] if a is not en.hv and a.op not in ("vlen", "K"))
        at = [a for a in cands if st.decide(eq(vget(ids, a, st), comp)) is True]
        if not at:
            res = None
            continue
        want = [lt(en.hv, a) if c == 0 else le(a, en.hv) for a in at]
        if not any(st.decide(w) is True for w in want):
            return False, o
    return res, seq[0][2]


def held_at(st, ids, comp):
    """Positions of a list of different ids known to hold a component."""
    cands = set(a for q in st.ints for a in parts(q)[1])
    for f in st.bools:
        if f.op == "eq0":
            cands |= set(parts(f.args[0])[1])
    return [a for a in cands if a.op not in ("vlen", "K") and st.decide(eq(vget(ids, a, st), comp)) is True]


def below(op, W, G, seq, comp):
    """Is every column of group G operated on at a position before that of the changed component?"""
    for st, C, o in seq:
        if C is None:
            return False
        ids = group_ids(op.cx, st, W, G)
        if not any(st.decide(lt(C, a)) is True for a in held_at(st, ids, comp)):
            return False
    return bool(seq)


def analyse_columns(op, s, rep, prop):
    """Obligations for the columns of every group whose entity list changes.  Returns False when nothing is to be judged."""
    cx, W = op.cx, op.W
    fn = op.root.fn.path
    ops, new, odd = entity_ops(cx, s, W)
    top, loops, problems = path_columns(cx, s, W)
    want5 = prop == "C05"
    if tainted(cx, s.events) or odd:
        rep.und("columns", fn, "path not covered")
        return
    if problems:
        e, why = problems[0]
        rep.und("columns", wh(fn, e), why)
        return
    minus, plus = [], []
    for G, val, e in ops:
        if val.op == "vswaprm":
            minus.append((G, val.args[1], e))
        elif val.op == "vpush":
            plus.append((G, e))
        elif val.op == "vpop":
            minus.append((G, sub(vlen(val.args[0]), I(1)), e))
        elif val.op == "vrm":
            if want5:
                rep.bad("row-order", wh(fn, e), "the entity list closes the gap by shifting, the columns by moving the last row")
            minus.append((G, val.args[1], e))
    newg = []
    for idx, g, e in new:
        newg.append((idx, g, e))
    same = lambda a, b, st=s: st.decide(eq(a, b, True)) is True

    allops = [(o, None) for o in top] + [(o, L) for L, its in loops.items() for _, os in its for o in os]
    # operations on groups whose entity list does not change
    if want5:
        for o, L in allops:
            rm = o.kind in ("move_out", "remove", "pop")
            ok_ = any(same(o.G, g) for g, *_ in (minus if rm else plus))
            if not ok_:
                rep.bad("unbalanced", wh(fn, o.ev), "a column of a group %s a value but the group's entity list does not" %
                        ("loses" if rm else "gains"))
    # rows
    for o, L in allops:
        if o.kind in ("move_out", "remove"):
            for g, row, e in minus:
                if same(o.G, g) and want5:
                    d = o.st.decide(eq(o.row, row, True))
                    if d is not True:
                        rep.bad("same-row", wh(fn, o.ev), "column row %s is removed, entity row %s" % (short(o.row, 60), short(row, 60)))
                    else:
                        rep.ok("same-row", wh(fn, o.ev))
        elif o.kind == "pop":
            for g, row, e in minus:
                if same(o.G, g) and want5:
                    n = vlen(cx.read(T("at", W.args[0]) and o.st, W, (ARCH, pi(g), pf("entities"))))
                    rep.bad("same-row", wh(fn, o.ev), "the last value of the column is removed instead of the entity's row")

    comp = op.comp
    skipside = {"add": "in", "remove": "out"}.get(op.kind)
    complete_in, complete_out = {}, {}
    if len(loops) > 1:
        rep.und("columns", fn, "more than one loop over columns")
        return
    moved_pairs_ok = None
    for L, its in loops.items():
        kinds = set(o.kind for _, os in its for o in os)
        site = wh(fn, next(o.ev for _, os in its for o in os))
        if any(len(os) > 2 or len([o for o in os if o.kind in ("move_in", "push")]) > 1 or
               len([o for o in os if o.kind in ("move_out", "remove", "pop")]) > 1 for _, os in its):
            rep.bad("once-per-column", site, "an iteration operates twice on the same group")
            continue
        sides = {}
        for side, ks in (("out", ("move_out", "remove", "pop")), ("in", ("move_in", "push"))):
            seq = []
            G = None
            for st, os in its:
                o = [o for o in os if o.kind in ks]
                if o:
                    if G is not None and not same(G, o[0].G, st):
                        rep.und("columns", site, "a loop works on several groups")
                        return
                    G = o[0].G
                    seq.append((st, o[0].C, o[0]))
                else:
                    seq.append((st, None, None))
            if G is not None:
                sides[side] = (G, seq)
        enums = {}
        keyed = {}
        for side, (G, seq) in sides.items():
            enums[side] = enum_positions(cx, L, [(st, C) for st, C, _ in seq])
        # do both sides of a move name the same component?
        if kinds & {"move_out", "move_in"}:
            allkey = True
            for st, os in its:
                for o in os:
                    if o.kind != "move_out":
                        continue
                    ia = vget(group_ids(cx, st, W, o.G), o.C, st)
                    ib = vget(group_ids(cx, st, W, o.other.G), o.other.C, st)
                    d = st.decide(eq(ia, ib))
                    if d is not True:
                        allkey = False
                    if d is False and prop == "C06":
                        rep.bad("same-component", wh(fn, o.ev), "a value moves to the column of another component")
            ei, eo = enums.get("in"), enums.get("out")
            if allkey:
                moved_pairs_ok = True
                driver = [k for k, e_ in enums.items() if e_.ok]
                if prop == "C06":
                    rep.ok("same-component", site, "by id")
                side = "out" if "out" in driver else ("in" if "in" in driver else None)
                if side is None:
                    (rep.und if enums["out"].und else rep.bad)("every-column", site, "source columns: " + enums["out"].why)
                    continue
                en = enums[side]
                G = sides[side][0]
                n = vlen(group_ids(cx, s, W, G))
                away = [g for g, _ in sides.values() if not same(g, G)]
                sk = skips_only(op, s, W, G, en, comp, away)
                if want5:
                    rep.check(sk is not False or not en.skips, "skip-only-changed", site, "a column other than the changed component's is passed over")
                    rep.check(exhausted(s, en, n), "every-column", site, "the loop can end before every column was visited")
                complete = True
            else:
                bad = None
                for side in ("out", "in"):
                    if not enums[side].ok:
                        bad = (side, enums[side])
                pw = piecewise(op, W, sides, enums, skipside, comp) if bad else None
                if pw is not None:
                    d, o = pw
                    if prop == "C06":
                        rep.check(d is True, "same-component", wh(fn, o.ev), "positions from the changed component's on are not shifted by exactly one", undecided=d is None)
                    if want5:
                        k = "in" if skipside == "out" else "out"
                        rep.check(exhausted(s, enums[k], vlen(group_ids(cx, s, W, sides[k][0]))), "every-column", site, "the walk can end before every column was moved")
                    moved_pairs_ok = d is True
                    continue
                if bad and [e_.ok for e_ in enums.values()].count(True) == 1 and enums[bad[0]].rev is not None:
                    rep.bad("parallel-columns", site, "the columns of the two groups are walked in opposite directions")
                    continue
                if bad:
                    side, en = bad
                    f = rep.und if en.und else rep.bad
                    f("parallel-columns", site, "%s columns: %s" % ("source" if side == "out" else "target", en.why))
                    continue
                # order-preserving parallel walk: the two id sequences are equal once the changed component is skipped on its side
                okp, prefix_only = True, False
                for side in ("out", "in"):
                    en = enums[side]
                    G = sides[side][0]
                    if side == skipside:
                        if not en.skips and below(op, W, G, sides[side][1], comp):
                            # only positions before the changed component's are walked; the walk of the rest is another loop
                            prefix_only = True
                            continue
                        if not en.skips:
                            okp = False
                            rep.bad("parallel-columns", site,
                                    "the %s columns are walked without skipping the changed component" % ("source" if side == "out" else "target"))
                        elif skips_only(op, s, W, G, en, comp) is False:
                            okp = False
                            rep.bad("parallel-columns", site, "a column other than the changed component's is skipped")
                        # the positions operated on are not the skipped component
                        for st, C, o in sides[side][1]:
                            if C is not None:
                                ids = group_ids(cx, st, W, G)
                                if st.decide(eq(vget(ids, C, st), comp)) is not False and not any(
                                        st.decide(eq(C, x, True)) is False for x in held_at(st, ids, comp)):
                                    okp = False
                                    rep.bad("parallel-columns", wh(fn, o.ev), "the changed component's own column takes part in the move")
                    elif en.skips:
                        okp = False
                        rep.bad("parallel-columns", site, "columns are skipped on the side that does not hold the changed component")
                if okp and prop == "C06":
                    rep.ok("same-component", site, "parallel walk")
                ns = [(enums[k], vlen(group_ids(cx, s, W, sides[k][0]))) for k in ("out", "in")]
                done = any(exhausted(s, en, n) for en, n in ns)
                if want5:
                    rep.check(done, "every-column", site, "the walk can end before every column was moved", undecided=prefix_only)
                moved_pairs_ok = okp
        else:
            # plain removal (despawn) or insertion (build)
            side = "out" if "out" in sides else "in"
            G, seq = sides[side]
            en = enums[side]
            n = vlen(group_ids(cx, s, W, G))
            if en.ok:
                if want5:
                    rep.check(not en.skips or skips_only(op, s, W, G, en, comp) is True, "once-per-column", site, "columns are passed over")
                    rep.check(exhausted(s, en, n), "every-column", site, "the loop can end before every column was visited")
            elif op.kind == "build":
                build_columns(op, s, rep, L, its, G, site, prop)
            elif en.rev is not None and want5:
                # from the last column to the first
                first, hv = en.rev
                rep.check(s.decide(eq(add(first, I(1)), n, True)) is True and s.decide(le(n, hv)) is True, "every-column", site,
                          "a walk from column %s towards the first does not visit every column" % short(first, 60))
            else:
                (rep.und if en.und else rep.bad)("every-column", site, en.why)
    # single operations
    if op.kind in ("add", "remove"):
        changed = [o for o in top if o.kind in (("push", "move_in") if op.kind == "add" else ("remove", "move_out", "pop"))]
        others = [o for o in top if o not in changed]
        gs = plus if op.kind == "add" else minus
        if (minus or plus) and want5:
            if not loops:
                # no column can survive: only legitimate when the smaller group is empty
                S = minus[0][0] if minus else None
                small = (minus[0][0] if op.kind == "add" else plus[0][0]) if minus and plus else None
                if small is not None:
                    n = vlen(group_ids(cx, s, W, small))
                    rep.check(s.decide(le(n, I(0))) is True, "every-column", fn, "the entity changes group without its other columns being moved")
        if minus or plus or top or loops:
            if len(changed) != 1:
                if want5:
                    rep.bad("changed-column", wh(fn, changed[1].ev) if len(changed) > 1 else fn,
                            "%d operations on the column of the changed component" % len(changed))
            else:
                o = changed[0]
                alts = values_of(cx, o.st, o.C)
                good = bool(alts)
                for st, c in alts:
                    # the column named by the index, in the group operated on
                    ids = group_ids(cx, st, W, o.G)
                    idt = vget(ids, c, st)
                    if st.decide(eq(idt, comp)) is not True:
                        good = False
                rep.check(good, "changed-column", wh(fn, o.ev),
                          "the %s value is not shown to be in the column of the changed component (column %s)" %
                          ("added" if op.kind == "add" else "removed", short(o.C, 80)))
                if op.kind == "add" and prop == "C06":
                    rep.check(o.ptr is op.root.args[3], "added-value", wh(fn, o.ev), "the column receives %s instead of the supplied value" % short(o.ptr))
            for o in others:
                if want5:
                    rep.und("columns", wh(fn, o.ev), "extra column operation")
    elif op.kind == "despawn":
        if minus and not loops and want5:
            n = vlen(group_ids(cx, s, W, minus[0][0]))
            rep.check(s.decide(le(n, I(0))) is True, "every-column", fn, "the entity list loses a row but no column does")
        for o in top:
            if want5:
                rep.bad("once-per-column", wh(fn, o.ev), "a single column is operated on in addition")
    elif op.kind == "build":
        if plus and not loops and want5:
            n = vlen(op.ids)
            rep.check(s.decide(le(n, I(0))) is True, "every-column", fn, "the entity list gains a row but no column does")
    # one removal per operation at most, one placement at most
    if want5:
        nm, np = len(minus), len(plus) + sum(1 for i, g, e in newg if fld(g, "entities").op == "agg" and len(fld(g, "entities").args) == 5)
        exp = {"add": (1, 1), "remove": (1, 1), "despawn": (1, 0), "build": (0, 1)}[op.kind]
        if (nm, np) == (0, 0):
            if allops:
                rep.bad("unbalanced", wh(fn, allops[0][0].ev), "columns change but no entity list does")
            else:
                rep.ok("no-row-change", fn)
        else:
            rep.check((nm, np) == exp, "balanced-rows", fn, "%d rows leave and %d rows enter entity lists" % (nm, np))


def build_columns(op, s, rep, L, its, G, site, prop):
    """Appending the staged values of a builder: for each staged id in order, one value to the column of that id."""
    cx, W = op.cx, op.W
    seq = []
    for st, os in its:
        o = [x for x in os if x.kind == "push"]
        if not o:
            seq.append((st, None))
            continue
        o = o[0]
        ids = group_ids(cx, st, W, G)
        idt = vget(ids, o.C, st)
        # which staged id?
        k = None
        for p, hv in L.vals.items():
            if hv.op in ("K", "lv", "lin"):
                if st.decide(eq(idt, vget(op.ids, hv, st))) is True:
                    k = hv
        seq.append((st, k))
        if k is None:
            (rep.bad)("staged-column", wh(op.root.fn.path, o.ev), "a staged value goes to a column not shown to be the one of its id")
            return
    en = enum_positions(cx, L, seq)
    if not en.ok:
        (rep.und if en.und else rep.bad)("every-staged-value", site, en.why)
        return
    if en.skips:
        rep.bad("every-staged-value", site, "a staged component is passed over")
    rep.ok("staged-column", site)
    if prop == "C05":
        rep.check(exhausted(s, en, vlen(op.ids)), "every-staged-value", site, "the loop can end before every staged component was stored")


@rule("C05")
def rows(an, rep):
    for op, s, v in each_path(an, rep):
        analyse_columns(op, s, rep, "C05")


@rule("C06")
def transfers(an, rep):
    for op, s, v in each_path(an, rep):
        if op.kind in ("add", "remove"):
            analyse_columns(op, s, rep, "C06")
