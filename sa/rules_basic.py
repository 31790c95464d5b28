"""Rules about entity allocation (C01) and handle comparison and hashing (C02)."""
from .ops import *

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def need_root(an, rep, rulename, path, **kw):
    r = an.root(path, **kw)
    if r is None:
        rep.und(rulename, path, "not analysed: %s" % an.errors.get(path))
        return None
    rep.functions.add(path)
    rep.functions |= set(r.cx.inlined)
    rep.paths += len(r.res)
    return r


GENS = pf("generations")
FREE = pf("despawned")
LOSSY = ("trunc", "band", "shr", "rem", "div", "bxor", "wrapcast", "cast")


def lossy(t):
    return any(x.op in LOSSY for x in subterms(t))


def vec_changes(t, base):
    """Writes that lead from container value base to t: [(kind, index, value)] oldest first, or None."""
    out = []
    while t is not base:
        if t.op == "vset":
            out.append(("set", t.args[1], t.args[2]))
            t = t.args[0]
        elif t.op == "vpush":
            out.append(("push", vlen(t.args[0]), t.args[1]))
            t = t.args[0]
        elif t.op == "vpop":
            out.append(("pop", sub(vlen(t.args[0]), I(1)), None))
            t = t.args[0]
        elif t.op in ("vrm", "vswaprm"):
            out.append(("pop", t.args[1], None))
            t = t.args[0]
        else:
            return None
    return out[::-1]


def slot_of(s, gens, i):
    x = vget(gens, i, s)
    return fld(x, "0"), fld(x, "1")


def handle(v):
    return fld(fld(v, "1"), "0"), fld(fld(v, "0"), "0")


def scenarios(s, flag, gen, hgen):
    """The possible relations of a slot to a handle: (name, consistent state)."""
    for name, facts in (("dead", [neg(flag)]),
                        ("older", [flag, lt(gen, hgen)]),
                        ("newer", [flag, lt(hgen, gen)]),
                        ("current", [flag, eq(gen, hgen, True)])):
        x = s
        for f in facts:
            if x is not None:
                x = x.assume(f)
        if x is not None:
            yield name, x


@rule("C01")
def allocation(an, rep):
    alive_rule(an, rep)
    spawn_rule(an, rep)
    despawn_rule(an, rep)


def foreign(s, t, ents, i):
    """Does t read a slot of the generations other than slot i?"""
    for x in subterms(t):
        if x.op == "vget" and x.args[0].op == "fld" and x.args[0].args[1] == "generations":
            if s.decide(eq(x.args[1], i, True)) is not True:
                return True
    return False


def alive_rule(an, rep):
    p = EN + "is_alive"
    r = need_root(an, rep, "alive-test", p, bounds={}, tag="ents")
    if r is None:
        return
    W = T("obj", r.args[0])
    i, hg = handle(r.args[1])
    for s, v in r.rets():
        if s.events:
            rep.und("alive-test", p, "the liveness test has effects")
            continue
        g0 = fld(T("at", r.args[0]), "generations")
        out_of_range = s.decide(le(vlen(g0), i))
        if out_of_range is True:
            d = s.decide(v)
            (rep.ok if d is False else rep.bad)("alive-test", p, "a handle without a slot is reported alive")
            continue
        flag, gen = slot_of(s, g0, i)
        for name, x in scenarios(s, flag, gen, hg):
            want = name == "current"
            d = x.decide(v)
            if d is want:
                rep.ok("alive-test", p)
            elif d is None and not (lossy(v) or foreign(x, v, g0, i) or v.op not in ("eq0", "le0", "not", "and", "eq", "fld")):
                # the answer depends on something the slot does not determine
                rep.bad("alive-test", p, "the answer %s is not determined by the slot's flag and generation" % short(v, 80))
            elif d is None:
                if lossy(v) or foreign(x, v, g0, i):
                    rep.bad("alive-test", p, "the answer for a slot that is %s does not depend on its whole generation: %s" % (name, short(v, 90)))
                else:
                    rep.und("alive-test", p, "answer not decided for a slot that is %s: %s" % (name, short(v, 80)))
            else:
                rep.bad("alive-test", p, "a handle whose slot is %s is reported %s" % (
                    {"dead": "free", "older": "in use by an older generation", "newer": "in use by a newer generation",
                     "current": "in use by itself"}[name], "alive" if d else "dead"))


def bump_of(s, new, old):
    """Generation steps from old to new: 0, 1, other int or None."""
    if s.decide(eq(new, old, True)) is True:
        return 0
    c = sub(new, old)
    if c.op == "int" and s.decide(le(new, I((1 << 32) - 1))) is True:
        return c.args[0]
    if new.op == "wadd":
        x, y = new.args
        if s.decide(eq(x, old, True)) is True and y.op == "int":
            return y.args[0]
        if s.decide(eq(y, old, True)) is True and x.op == "int":
            return x.args[0]
    return None


def spawn_rule(an, rep):
    p = EN + "spawn"
    r = need_root(an, rep, "spawn", p, bounds={}, tag="ents")
    d = need_root(an, rep, "spawn", EN + "despawn", bounds={}, tag="ents")
    if r is None or d is None:
        return
    W = T("obj", r.args[0])
    g0 = fld(T("at", r.args[0]), "generations")
    f0 = fld(T("at", r.args[0]), "despawned")
    # how far does a despawn advance the generation?
    db = set()
    for s, v in d.rets():
        if s.decide(v) is True:
            gd = fld(T("at", d.args[0]), "generations")
            i, hg = handle(d.args[1])
            ch = vec_changes(d.cx.read(s, T("obj", d.args[0]), (GENS,)), gd)
            if ch and len(ch) == 1 and ch[0][0] == "set":
                db.add(bump_of(s, fld(ch[0][2], "1"), slot_of(s, gd, i)[1]))
            else:
                db.add(None)
    for s, v in r.rets():
        idx, gen = handle(v)
        g1, f1 = r.cx.read(s, W, (GENS,)), r.cx.read(s, W, (FREE,))
        chg, chf = vec_changes(g1, g0), vec_changes(f1, f0)
        if chg is None or chf is None or tainted(r.cx, s.events):
            rep.und("spawn", p, "the slots change in a form not covered")
            continue
        # a number off the free list was put there by despawn (rule below), from a handle: it is a u32
        reused = vget(f0, chf[0][1], s) if len(chf) == 1 and chf[0][0] == "pop" else None
        if reused is not None and idx.op == "trunc" and idx.args[0] is reused:
            idx = reused
        if any(e[0] == "narrow" and s.decide(eq(e[1], idx, True)) is True and e[1] is not reused for e, ch in all_events(r.cx, s.events)):
            rep.bad("spawn", p, "a slot number that need not fit is truncated into the handle")
        lost = idx.op == "trunc" and s.decide(eq(idx, idx.args[0], True)) is not True
        if lost:
            rep.bad("spawn", p, "the handle's index is a truncated slot number")
            idx = idx.args[0]
        if not chf:
            # a fresh slot
            if len(chg) == 0:
                rep.bad("spawn", p, "a handle is returned without its slot being taken")
                continue
            if chg[0][0] != "push":
                # an existing slot reused without being taken off the free list
                rep.bad("spawn", p, "an existing slot is handed out that is not taken off the free list")
                continue
            fl, ge = slot_of(s, g1, vlen(g0))
            rep.check(s.decide(eq(idx, vlen(g0), True)) is True, "spawn-fresh-slot", p, "the handle names slot %s, the new slot is %s" % (short(idx), short(vlen(g0))))
            rep.check(s.decide(fl) is True, "spawn-alive", p, "the new slot is not marked alive")
            rep.check(s.decide(eq(gen, ge, True)) is True, "spawn-generation", p, "the handle's generation %s is not the slot's %s" % (short(gen, 60), short(ge, 60)))
            more = [c for c in chg[1:] if not (c[0] == "set" and s.decide(eq(c[1], vlen(g0), True)) is True)]
            rep.check(not more, "spawn-other-slots", p, "another slot changes")
        else:
            if len(chf) != 1 or chf[0][0] != "pop":
                rep.bad("spawn-reuse", p, "the free list changes by other than taking one slot")
                continue
            free = vget(f0, chf[0][1], s)
            rep.check(s.decide(eq(idx, free, True)) is True, "spawn-reuse", p, "the handle names slot %s, the slot taken off the free list is %s" % (short(idx, 60), short(free, 60)))
            if any(c[0] != "set" for c in chg):
                rep.bad("spawn-reuse", p, "a slot is taken off the free list and another is created or removed")
                continue
            fl0, ge0 = slot_of(s, g0, free)
            fl, ge = slot_of(s, g1, free)
            if s.decide(fl0) is True:
                rep.bad("spawn-reuse", p, "a slot that is still alive is handed out")
            rep.check(s.decide(fl) is True, "spawn-alive", p, "the reused slot is not marked alive")
            rep.check(s.decide(eq(gen, ge, True)) is True, "spawn-generation", p, "the handle's generation %s is not the slot's %s" % (short(gen, 60), short(ge, 60)))
            rep.check(all(s.decide(eq(c[1], free, True)) is True for c in chg), "spawn-other-slots", p, "another slot changes")
            b = bump_of(s, ge, ge0)
            for x in db or {0}:
                if b is None or x is None:
                    if s.decide(eq(ge, add(ge0, I(1)), True)) is True and x == 0:
                        rep.bad("generation-step", p, "the generation is advanced without wrapping")
                    elif ge.op == "int" or lossy(ge) or s.decide(eq(ge, ge0, True)) is not None or ge.op in ("satadd", "min", "max"):
                        rep.bad("generation-step", p, "a reused slot's generation becomes %s" % short(ge, 90))
                    else:
                        rep.und("generation-step", p, "generation becomes %s" % short(ge, 90))
                else:
                    rep.check(b + x == 1, "generation-step", p, "a slot is handed out again %d generations on" % (b + x))


def despawn_rule(an, rep):
    p = EN + "despawn"
    r = need_root(an, rep, "despawn", p, bounds={}, tag="ents")
    if r is None:
        return
    W = T("obj", r.args[0])
    g0 = fld(T("at", r.args[0]), "generations")
    f0 = fld(T("at", r.args[0]), "despawned")
    i, hg = handle(r.args[1])
    for s, v in r.rets():
        d = s.decide(v)
        g1, f1 = r.cx.read(s, W, (GENS,)), r.cx.read(s, W, (FREE,))
        chg, chf = vec_changes(g1, g0), vec_changes(f1, f0)
        if chg is None or chf is None or tainted(r.cx, s.events):
            rep.und("despawn", p, "the slots change in a form not covered")
            continue
        flag, gen = slot_of(s, g0, i)
        oor = s.decide(le(vlen(g0), i)) is True
        if d is None:
            rep.und("despawn", p, "result not decided")
            continue
        if d is False:
            rep.check(not chg and not chf, "despawn-refused", p, "false is returned although slots changed")
            if not oor:
                for name, x in scenarios(s, flag, gen, hg):
                    if name == "current":
                        rep.bad("despawn-refused", p, "despawning an alive handle can return false")
            continue
        for name, x in scenarios(s, flag, gen, hg):
            rep.check(name == "current" and not oor, "despawn-only-alive", p, "a handle that is not alive is despawned (slot %s)" % name)
        fl, ge = slot_of(s, g1, i)
        rep.check(s.decide(fl) is False, "despawn-slot-dead", p, "the slot of the despawned handle stays alive")
        rep.check(all(c[0] == "set" and s.decide(eq(c[1], i, True)) is True for c in chg), "despawn-other-slots", p, "another slot changes")
        pushes = [c for c in chf if c[0] == "push"]
        rep.check(len(chf) == len(pushes) <= 1, "despawn-free-list", p, "the slot enters the free list %d times" % len(pushes))
        for c in pushes:
            rep.check(s.decide(eq(c[2], i, True)) is True, "despawn-free-list", p, "slot %s is freed instead of the handle's" % short(c[2], 60))


# ---------------------------------------------------------------- the world's entry points
def ent_events(cx, s):
    return [(e, ch) for e, ch in all_events(cx, s.events) if e[0] in ("ent.spawn", "ent.despawn")]


def slot_writes(cx, s):
    return [e for e, ch in all_events(cx, s.events) if e[0] == "w" and (GENS in e[2] or FREE in e[2])]


def unbuilt(s, w, h):
    m = fld(T("at", w), "ecs_id_meta")
    return s.decide(le(vlen(m), uidx(h))) is True or s.variant(vget(m, uidx(h), s)) == "None"


SPAWNERS = (WD + "spawn", WD + "spawn_with_capacity", WD + "spawn_with_component_meta", WD + "get_or_create_type_id_ecsid")


@rule("C01")
def world_entry(an, rep):
    p = WD + "despawn"
    r = need_root(an, rep, "world-despawn", p)
    if r is not None:
        cx = r.cx
        for s, v in r.rets():
            ev = ent_events(cx, s)
            d = s.decide(v)
            if tainted(cx, s.events) or d is None or slot_writes(cx, s) or any(ch for _, ch in ev):
                rep.und("world-despawn", p, "path not covered")
                continue
            kinds = [e[0] for e, _ in ev]
            if d:
                rep.check(kinds == ["ent.despawn"], "world-despawn", p, "true is returned after %d releases of a handle" % len(kinds))
            else:
                rep.check(not kinds, "world-despawn", p, "false is returned although a handle was released")
                al = s.decide(T("alive", fld(T("at", r.args[0]), "entities"), r.args[1]))
                # an id that a builder reserved and never built is alive but has no metadata: nobody holds it
                held = not unbuilt(s, r.args[0], r.args[1])
                rep.check(al is not True or not held, "world-despawn", p, "despawning an alive handle can return false")
                w = [e for e, ch in all_events(cx, s.events) if e[0] in ("w",) + MUTATORS and e[1].op != "loc"]
                if w and al is False:
                    rep.bad("despawn-changes-nothing", wh(p, w[0]), "a handle that is not alive causes a change")
                elif not w:
                    rep.ok("despawn-changes-nothing", p)
            for e, _ in ev:
                rep.check(e[0] == "ent.despawn" and s.decide(eq(e[2], r.args[1])) is True, "world-despawn", wh(p, e), "another handle is released")
    p = WD + "is_alive"
    r = need_root(an, rep, "world-alive", p)
    if r is not None:
        al = T("alive", fld(T("at", r.args[0]), "entities"), r.args[1])
        for s, v in r.rets():
            for b in (True, False):
                x = s.assume(al, b)
                if x is None:
                    continue
                d = x.decide(v)
                if d is None:
                    rep.und("world-alive", p, "answer not decided")
                else:
                    rep.check(d is b, "world-alive", p, "%s handle is reported %s" % ("an alive" if b else "a dead", "alive" if d else "dead"))
    for p in SPAWNERS:
        if not an.has(p):
            continue
        r = need_root(an, rep, "spawned-handle", p, inline=(EB + "new", EB + "with_capacity") if p.startswith(WD) else ())
        if r is None:
            continue
        for s, v in r.rets():
            ev = ent_events(r.cx, s)
            if tainted(r.cx, s.events) or slot_writes(r.cx, s):
                rep.und("spawned-handle", p, "path not covered")
                continue
            sp = [e for e, ch in ev if e[0] == "ent.spawn"]
            if [e for e, ch in ev if e[0] == "ent.despawn"]:
                rep.bad("spawned-handle", p, "a handle is released while spawning")
            if p.endswith("get_or_create_type_id_ecsid"):
                if len(sp) == 0:
                    rep.ok("spawned-handle", p)
                    continue
                got = v
            else:
                got = fld(v, "entity")
            rep.check(len(sp) == 1 and s.decide(eq(got, sp[0][2])) is True, "spawned-handle", p,
                      "the handle given out is %s after %d spawns" % (short(got, 60), len(sp)))
    for n in ("new", "with_capacity"):
        p = EB + n
        r = need_root(an, rep, "spawned-handle", p) if an.has(p) else None
        if r is None:
            continue
        ids = [x for x, t in zip(r.args, r.fn.d.get("inputs") or []) if t.get("k") == "adt" and t.get("path") == ID]
        for s, v in r.rets():
            if ids:
                rep.check(s.decide(eq(fld(v, "entity"), ids[0])) is True and not ent_events(r.cx, s), "spawned-handle", p,
                          "the builder is made for %s instead of the handle it is given" % short(fld(v, "entity"), 60))
            else:
                sp = [e for e, ch in ent_events(r.cx, s) if e[0] == "ent.spawn"]
                rep.check(len(sp) == 1 and s.decide(eq(fld(v, "entity"), sp[0][2])) is True, "spawned-handle", p,
                          "the builder is made for %s after %d spawns" % (short(fld(v, "entity"), 60), len(sp)))
    p = EB + "build"
    r = need_root(an, rep, "spawned-handle", p, facts=builder_facts)
    if r is not None:
        for s, v in r.rets():
            rep.check(s.decide(eq(v, fld(r.args[0], "entity"))) is True, "spawned-handle", p, "the finished builder returns %s" % short(v, 60))
    for n in ("with", "with_dynamic", "with_dynamic_with_data"):
        p = EB + n
        r = need_root(an, rep, "spawned-handle", p)
        if r is None:
            continue
        for s, v in r.rets():
            while v.op == "bwith":
                v = v.args[0]
            if v is r.args[0]:
                rep.ok("spawned-handle", p)
                continue
            rep.check(s.decide(eq(fld(v, "entity"), fld(r.args[0], "entity"))) is True, "spawned-handle", p, "the builder continues with another handle")
    # nobody else releases handles or touches the slots
    for path, r in reachable_roots(an, rep):
        if path in (WD + "despawn",) or path.startswith("arche_tape::entities::"):
            continue
        for s, v in r.rets():
            for e, ch in ent_events(r.cx, s):
                if e[0] == "ent.despawn":
                    rep.bad("only-despawn-releases", wh(path, e), "an operation other than despawn releases a handle")
            for e in slot_writes(r.cx, s):
                rep.und("only-despawn-releases", wh(path, e), "writes slots directly")
        rep.ok("only-despawn-releases", path)


MUTATORS = ("uv.push_raw", "uv.swap_remove", "uv.pop", "uv.swap_move_element_to_other_vec", "ent.spawn", "ent.despawn",
            "bits.set", "bits.push2", "bits.insert", "bitvec.set", "bitvec.push", "cache.insert", "world.add", "world.remove",
            "world.despawn", "builder.build")


def reachable_roots(an, rep):
    """Analysed reachable functions of the world and the builder."""
    out = []
    for k, f in an.prog.fns.items():
        if not f.d.get("reachable") or f.body is None:
            continue
        if not (f.path.startswith(WD) or f.path.startswith(EB) or f.path.startswith(AR)):
            continue
        r = an.root(f.path)
        if r is None:
            rep.und("only-despawn-releases", f.path, "not analysed: %s" % an.errors.get(f.path))
            continue
        rep.functions.add(f.path)
        out.append((f.path, r))
    return out


# ---------------------------------------------------------------- C02
ID = "arche_tape::entities::EcsId"


def widen(t, memo=None):
    """Rewrite shift-and-or packings of 32-bit fields into linear forms."""
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    if t.op == "lin":
        r = I(t.args[0])
        for a, k in t.args[1]:
            r = add(r, scale(widen(a, memo), k))
    elif t.op in ("bor", "bxor", "wadd"):
        a, b = (widen(x, memo) for x in t.args)
        r = None
        for x, y in ((a, b), (b, a)):
            if low_zero(x) and below32(y):
                r = add(x, y)
        if r is None:
            r = T(t.op, a, b)
    elif t.op == "shl":
        a, b = (widen(x, memo) for x in t.args)
        if b.op == "int" and below32(a) and b.args[0] <= 32:
            r = scale(a, 1 << b.args[0])
        else:
            r = T("shl", a, b)
    elif t.op in ("eq0", "le0", "not", "and", "eq", "cmp"):
        na = [widen(x, memo) for x in t.args]
        if t.op == "eq0":
            r = eq(na[0], I(0), True)
        elif t.op == "le0":
            r = le0(na[0])
        elif t.op == "not":
            r = neg(na[0])
        elif t.op == "and":
            r = conj(*na)
        elif t.op == "eq":
            r = eq(*na)
        else:
            r = T(t.op, *na)
    else:
        r = t
    memo[t] = r
    return r


def field32(t):
    """One of the two 32-bit fields of a handle."""
    return t.op == "fld" and t.args[1] == "0" and t.args[0].op == "fld" and t.args[0].args[1] in ("0", "1")


def below32(t):
    return field32(t) or (t.op == "int" and 0 <= t.args[0] < 1 << 32)


def low_zero(t):
    c, m = parts(t)
    return c % (1 << 32) == 0 and all(k % (1 << 32) == 0 for k in m.values()) and (m or c)


REL = {"<": -1, "=": 0, ">": 1}


def nine(s, a, b):
    """The nine order combinations of the fields of two handles: ((gen rel, idx rel), state)."""
    for rg in "<=>":
        for ri in "<=>":
            x = s
            for r, f in ((rg, "0"), (ri, "1")):
                u, v = fld(fld(a, f), "0"), fld(fld(b, f), "0")
                for fact in (le(u, I((1 << 32) - 1)), le(v, I((1 << 32) - 1)),
                             {"<": lt(u, v), "=": eq(u, v, True), ">": lt(v, u)}[r]):
                    if x is not None:
                        x = x.assume(fact)
            if x is not None:
                yield (rg, ri), x


def order_of(s, v):
    """Ordering value in a state: -1, 0, 1, None (undecided) or 'none' for an absent result."""
    if v.op == "agg" and v.args[0].endswith("Option"):
        if v.args[2] == "None":
            return "none"
        v = vfld(v, "Some", "0")
    if v.op == "agg":
        return {"Less": -1, "Equal": 0, "Greater": 1}.get(v.args[2])
    flip = 1
    while v.op in ("rev", "reverse"):
        flip = -flip
        v = v.args[0]
    if v.op == "cmp":
        a, b = widen(v.args[0]), widen(v.args[1])
        if s.decide(lt(a, b)) is True:
            return -1 * flip
        if s.decide(lt(b, a)) is True:
            return 1 * flip
        if s.decide(eq(a, b, True)) is True:
            return 0
        return None
    n = s.variant(v)
    return {"Less": -1, "Equal": 0, "Greater": 1}.get(n)


def lexico(first, s1, s2):
    t = {}
    for g in "<=>":
        for i in "<=>":
            a, b = (g, i) if first == 0 else (i, g)
            t[(g, i)] = s1 * REL[a] or s2 * REL[b]
    return t


ORDERS = [lexico(f, a, b) for f in (0, 1) for a in (1, -1) for b in (1, -1)]


@rule("C02")
def comparisons(an, rep):
    p = "<%s as std::cmp::PartialEq>::eq" % ID
    r = need_root(an, rep, "equality", p, bounds={}, tag="cmp")
    if r is not None:
        a, b = T("at", r.args[0]), T("at", r.args[1])
        # the halves of a handle are wrappers of one number each
        whole = {}
        for f in ("0", "1"):
            x, y = fld(a, f), fld(b, f)
            whole[eq(x, y)] = whole[eq(y, x)] = eq(fld(x, "0"), fld(y, "0"), True)
        for s, v in r.rets():
            w = widen(subst(v, whole))
            for rel, x in nine(s, a, b):
                # the path itself must be compatible: re-assume its own facts in widened form
                x = reassume(x)
                if x is None:
                    continue
                d = x.decide(w)
                want = rel == ("=", "=")
                if d is want:
                    rep.ok("equality", p)
                elif d is not None:
                    rep.bad("equality", p, "handles with generations %s and indices %s compare %s" % (rel[0], rel[1], "equal" if d else "unequal"))
                elif lossy(w) or odd_pack(w):
                    rep.bad("equality", p, "handles with generations %s and indices %s can compare equal: %s" % (rel[0], rel[1], short(v, 80)))
                else:
                    rep.und("equality", p, "not decided for generations %s, indices %s" % rel)
    if an.has("<%s as std::cmp::PartialEq>::ne" % ID):
        rep.und("equality", "<%s as std::cmp::PartialEq>::ne" % ID, "own inequality test")
    tables = {}
    for tr, m in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        p = "<%s as std::cmp::%s>::%s" % (ID, tr, m)
        r = need_root(an, rep, "ordering", p, bounds={}, tag="cmp")
        if r is None:
            continue
        a, b = T("at", r.args[0]), T("at", r.args[1])
        tab, bad = {}, False
        for s, v in r.rets():
            for rel, x in nine(s, a, b):
                x = reassume(x)
                if x is None:
                    continue
                o = order_of(x, v)
                if o == "none":
                    rep.bad("ordering", p, "some handles are not comparable")
                    bad = True
                elif o is None and (lossy(v) or odd_pack(widen(v) if v.op == "cmp" else v)):
                    rep.bad("ordering", p, "the order does not depend on the whole handle: %s" % short(v, 80))
                    bad = True
                else:
                    tab.setdefault(rel, set()).add(o)
        if bad:
            continue
        if any(len(x) != 1 or None in x for x in tab.values()) or len(tab) != 9:
            rep.und("ordering", p, "order not decided")
            continue
        tab = {k: next(iter(x)) for k, x in tab.items()}
        tables[tr] = tab
        for k, o in tab.items():
            if (o == 0) != (k == ("=", "=")):
                rep.bad("ordering", p, "handles with generations %s and indices %s compare %s" % (k[0], k[1], "Equal" if o == 0 else "unequal"))
                bad = True
        if not bad:
            if tab in ORDERS:
                for _ in range(9):
                    rep.ok("ordering", p)
            else:
                rep.bad("ordering", p, "the comparison is not a total order: %s" %
                        ", ".join("%s%s:%d" % (k[0], k[1], o) for k, o in sorted(tab.items())))
    if len(tables) == 2:
        rep.check(tables["Ord"] == tables["PartialOrd"], "ordering-agree", "<%s as std::cmp::PartialOrd>::partial_cmp" % ID,
                  "partial_cmp and cmp order handles differently")
    hashing(an, rep)


def reassume(x):
    """The state with its bit-packed facts restated linearly; None when they contradict."""
    for p in x.ints:
        q = widen(p)
        if q is not p:
            if x is None:
                return None
            x = x.assume(le0(q))
            if x is None:
                return None
    for k, v in list(x.bools.items()):
        q = widen(k)
        if q is not k:
            x = x.assume(q, v)
            if x is None:
                return None
    return x


def odd_pack(t):
    """A packing of the two fields that is not injective."""
    return any(x.op in ("bor", "shl", "bxor", "wadd") for x in subterms(t))


def hashing(an, rep):
    p = "<%s as std::hash::Hash>::hash" % ID
    r = need_root(an, rep, "hash", p, bounds={}, tag="cmp")
    if r is not None:
        a = T("at", r.args[0])
        g, i = fld(fld(a, "0"), "0"), fld(fld(a, "1"), "0")
        for s, v in r.rets():
            hs = [e for e, ch in all_events(r.cx, s.events) if e[0] == "hash"]
            if tainted(r.cx, s.events) or not hs:
                if not tainted(r.cx, s.events) and not s.events:
                    rep.bad("hash", p, "nothing is fed to the hasher")
                else:
                    rep.und("hash", p, "hashing not covered")
                continue
            last = widen(hs[-1][1])
            c, m = parts(last)
            both = set(m) == {g, i} and sorted(abs(k) for k in m.values())[1] % (1 << 32) == 0
            if len(hs) > 1:
                rep.bad("hash", wh(p, hs[1]), "the handle is fed to the hasher in several pieces, of which the id hasher keeps only the last")
            else:
                rep.check(both, "hash", wh(p, hs[0]), "only %s of the handle is fed to the hasher" % short(hs[-1][1], 80),
                          undecided=not (lossy(last) or odd_pack(last) or field32(last) or last.op == "int"))
    H = "<arche_tape::utils::TypeIdHasher as std::hash::Hasher>::"
    for k, f in list(an.prog.fns.items()):
        if not f.path.startswith(H):
            continue
        m = f.path[len(H):]
        if "::" in m or not f.d.get("args", True):
            continue
        r = need_root(an, rep, "hasher", f.path, bounds={}, tag="cmp")
        if r is None:
            continue
        W = T("obj", r.args[0])
        for s, v in r.rets():
            if tainted(r.cx, s.events):
                rep.und("hasher", f.path, "path not covered")
                continue
            if m == "finish":
                rep.check(s.decide(eq(v, fld(T("at", r.args[0]), "0"), True)) is True, "hasher", f.path, "the hash is %s instead of the stored value" % short(v, 80))
            elif m.startswith("write"):
                x = r.cx.read(s, W, (pf("0"),))
                want = r.args[1]
                if x is want or x.op == "from_bytes" or (x.op in ("fld", "some") and False):
                    full = x is want or any(t is want for t in subterms(x))
                    rep.check(full, "hasher", f.path, "the stored hash does not come from the bytes written")
                elif lossy(x) or x is fld(T("at", r.args[0]), "0") or x.op == "int":
                    rep.bad("hasher", f.path, "the stored hash is %s" % short(x, 100))
                else:
                    rep.und("hasher", f.path, "the stored hash is %s" % short(x, 100))
            else:
                rep.und("hasher", f.path, "unknown method")
