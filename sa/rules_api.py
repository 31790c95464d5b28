"""Rules about the public operations: handles (C03), requests (C20), components in use (C21), locks (C24), types (C18)."""
import json
from .ops import *
from .rules_basic import need_root, MUTATORS, ID, handle, slot_of

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


EFFECTS = ("w", "minsert", "mremove", "mclear", "dropinplace", "copy", "write", "pwrite") + MUTATORS


def worlds(r):
    """Values that can be the world an operation works on."""
    a = r.args[0]
    return [T("at", a), T("at", fld(a, "world")), T("at", fld(T("at", a), "world"))]


def entity_handles(f):
    return [i for i, t in enumerate(f.d.get("inputs") or []) if t.get("k") == "adt" and t.get("path") == ID]


def alive_known(r, s, h):
    """Do the facts of a path imply that handle h is alive (at the start of the operation)?
    True / False / None; the second part says how."""
    for w in worlds(r):
        ents = fld(w, "entities")
        d = s.decide(T("alive", ents, h))
        if d is not None:
            return d
        i, hg = handle(h)
        flag, gen = slot_of(s, fld(ents, "generations"), i)
        if s.decide(flag) is True and s.decide(eq(gen, hg, True)) is True:
            return True
    # an alive handle is the only one listed in its row, and the only one groups have as a component
    for f, v in s.bools.items():
        if v and f.op == "has" and f.args[1] is h and f.args[0].op == "fld" and f.args[0].args[1] == "comp_lookup":
            return True
        if v and f.op == "contains" and f.args[1] is h and f.args[0].op == "fld" and f.args[0].args[1] in ("comp_ids", "entities"):
            return True
    for a, b in s.eqs:
        for x, y in ((a, b), (b, a)):
            if x is h and y.op == "vget" and y.args[0].op == "fld" and y.args[0].args[1] in ("entities", "comp_ids"):
                return True
    return None


def effects(cx, s):
    """What a path does to anything that outlives it, apart from giving a type its component id."""
    return [e for e, ch in all_events(cx, s.events) if e[0] in EFFECTS and isinstance(e[1], Term) and not local(e[1])]


def local(t):
    if t.op == "ref":
        t = t.args[0]
    return t.op == "loc"


def absent(s, v, r):
    """Does a result carry nothing?  True / False / None (not known)"""
    if v is None:
        return True
    if v.op == "agg" and v.args[0] in ("tuple", "unit", "()") and len(v.args) == 4:
        return True
    if any(v is a for a in r.args):
        return True
    var = s.variant(v)
    if var is not None:
        return var in ("None", "Err")
    d = s.decide(v) if v.op in ("bool", "not", "and", "eq", "eq0", "le0", "alive", "has", "contains") or is_bool(v) else None
    if d is not None:
        return not d
    return None


def is_bool(v):
    return v is TRUE or v is FALSE


PASSED = {"world.add": (2, 3), "world.remove": (2, 3), "world.despawn": (2,), "builder.with": (3,)}


# ---------------------------------------------------------------- C03
def handle_functions(an):
    for k, f in an.prog.fns.items():
        if not f.d.get("reachable") or f.body is None or not f.path.startswith("arche_tape"):
            continue
        if f.path.startswith((EN, AR)) or "AddRemoveCache" in f.path or f.path in (WD + "is_alive",):
            continue
        hs = entity_handles(f)
        if hs and f.body["argc"] > 1:
            yield k, f, hs


@rule("C03")
def dead_handles(an, rep):
    n = 0
    for k, f, hs in handle_functions(an):
        n += 1
        r = an.root(f.path, key=k)
        p = f.path
        if r is None:
            rep.und("dead-handle", p, "not analysed: %s" % an.errors.get(p))
            continue
        rep.functions.add(p)
        rep.paths += len(r.res)
        cx = r.cx
        for s, v in r.rets():
            for h in hs:
                h = r.args[h]
                d = alive_known(r, s, h)
                if d is True:
                    rep.ok("dead-handle", p)
                    continue
                if tainted(cx, s.events):
                    rep.und("dead-handle", p, "an unknown function runs on this path")
                    continue
                eff = []
                for e in effects(cx, s):
                    if e[0] in PASSED and any(i < len(e) and e[i] is h for i in PASSED[e[0]]):
                        continue            # the operation called checks the same handle itself
                    eff.append(e)
                if eff:
                    rep.bad("dead-handle", wh(p, eff[0]), "the operation takes effect for a handle not known to be alive")
                    continue
                ab = absent(s, v, r)
                if ab is True:
                    rep.ok("dead-handle", p)
                elif ab is False:
                    rep.bad("dead-handle", p, "data is returned for a handle not known to be alive: %s" % short(v, 60))
                elif h_free(v, h, r):
                    rep.und("dead-handle", p, "result not classified: %s" % short(v, 80))
                else:
                    rep.bad("dead-handle", p, "the result depends on a handle not known to be alive: %s" % short(v, 60))
        for s, v in r.panics():
            for h in hs:
                h = r.args[h]
                if alive_known(r, s, h) is True:
                    continue
                if tainted(cx, s.events):
                    rep.und("dead-handle-panic", p, "an unknown function runs on this path")
                    continue
                eff = [e for e in effects(cx, s) if not (e[0] in PASSED)]
                if eff:
                    rep.bad("dead-handle-panic", wh(p, eff[0]), "a change is made before the handle is rejected")
                else:
                    rep.ok("dead-handle-panic", p)
    if n < 5:
        rep.und("dead-handle", "arche_tape", "the operations taking handles were not found")


def h_free(v, h, r):
    return not contains(v, h)


# ---------------------------------------------------------------- C21
def use_facts(cx, s, W, h):
    """What a state knows about h being a component of groups: [(archetypes index or None, True/False, fact)].
    None: a fact about all groups at once (no lock, no membership set: only ids that groups have get those)."""
    out = []
    for f, v in s.bools.items():
        if f.op == "has" and f.args[1] is h:
            m = f.args[0]
            if m.op == "fld" and m.args[1] == "comp_lookup":
                i = arch_index(m.args[0])
                if i is not None:
                    out.append((i, v, f))
            elif m.op == "fld" and m.args[1] == "lock_lookup":
                out.append((None, v, f))
        elif f.op == "contains" and f.args[1] is h and f.args[0].op == "fld" and f.args[0].args[1] == "comp_ids":
            i = arch_index(f.args[0].args[0])
            if i is not None:
                out.append((i, v, f))
        elif f.op == "hasbits" and h in f.args:
            out.append((None, v, f))
    for f, vn in list(s.variants.items()):
        if vn == "None" and f.op in ("getbits", "bitsget") and h in f.args:
            out.append((None, False, f))
    return out


def arch_index(g):
    """k if g is group k of the world"""
    if g.op == "vget" and g.args[0].op == "fld" and g.args[0].args[1] == "archetypes":
        return g.args[1]
    return None


def searched(cx, s, L, W, h):
    """Does loop L visit every group and find that h is not a component of it?  (verdict, text)
    verdict: 'ok', 'bad', 'undecided', or None if the loop is about something else."""
    its = []
    about = False
    skipped = []
    for s2, _ in L.iters:
        fs = [x for x in use_facts(cx, s2, W, h) if x[0] is not None]
        own = [x for x in fs if x[2] not in L.head.bools]
        if own:
            about = True
            if any(v for _, v, _ in own):
                ev = [e for e, ch in all_events(cx, L.events(s2)) if e[0] in EFFECTS]
                return ("undecided", "groups using the id are changed in a form not covered") if ev else (
                    "bad", "a group that has the id as a component is passed over")
            its.append((s2, own[0][0]))
        else:
            skipped.append(s2)
    if not about:
        return None, ""
    n = vlen(fld(T("at", W.args[0]), "archetypes"))
    if all(parts(i)[1].get(n) == 1 for _, i in its):       # from the last group downwards
        its = [(x, sub(sub(n, I(1)), i)) for x, i in its]
    en = enum_positions(cx, L, its + [(x, None) for x in skipped])
    if not en.ok:
        return ("undecided" if en.und else "bad"), "the groups searched for the id: " + en.why
    if en.skips:
        return "bad", "some groups are not searched for the id"
    if exhausted(s, en, n):
        return "ok", ""
    return "bad", "the search for the id ends before the last group"


@rule("C21")
def in_use(an, rep):
    p = WD + "despawn"
    r = need_root(an, rep, "id-not-in-use", p)
    if r is not None:
        cx, W, h = r.cx, T("obj", r.args[0]), r.args[1]
        for s, v in r.rets() + r.panics():
            first = None
            loops = []
            rel = None
            for e in s.events:
                if e[0] == "loop" and e[1] in cx.loops:
                    if first is None:
                        loops.append(cx.loops[e[1]])
                    if first is None and any(x[0] in EFFECTS and not local(x[1]) for x, _ in all_events(cx, (e,))):
                        first = e
                elif e[0] in EFFECTS and isinstance(e[1], Term) and not local(e[1]):
                    if first is None:
                        first = e
                    if e[0] == "ent.despawn":
                        rel = e
            if any(e[0] == "ent.despawn" and ch for e, ch in all_events(cx, s.events)):
                rep.und("id-not-in-use", p, "handles are released in a loop")
                continue
            if first is None:
                rep.ok("refused-before-change", p)
                continue
            if tainted(cx, s.events):
                rep.und("id-not-in-use", p, "an unknown function runs on this path")
                continue
            facts = use_facts(cx, s, W, h)
            if any(i is None and v is False for i, v, _ in facts):
                rep.ok("id-not-in-use", p)
                continue
            verdicts = [x for x in (searched(cx, s, L, W, h) for L in loops) if x[0] is not None]
            if any(x[0] == "ok" for x in verdicts):
                rep.ok("id-not-in-use", p)
                continue
            site = wh(p, rel or first)
            und = next((x for x in verdicts if x[0] == "undecided"), None)
            late = any(x[0] is not None for x in (searched(cx, s, cx.loops[e[1]], W, h) for e in s.events
                                                  if e[0] == "loop" and e[1] in cx.loops and cx.loops[e[1]] not in loops))
            if und:
                rep.und("id-not-in-use", site, und[1])
            elif verdicts:
                rep.bad("id-not-in-use", site, verdicts[0][1])
            elif late:
                rep.bad("id-not-in-use", site, "the world is changed before the groups are searched for the id")
            elif rel is not None or s.decide(T("alive", fld(T("at", r.args[0]), "entities"), h)) is not False:
                rep.bad("id-not-in-use", site, "a handle is released without searching the groups for it as a component")
        # an entity no group has as a component is not refused
        for s, v in r.panics():
            if [e for e in effects(cx, s)]:
                continue
            why = v[0] if isinstance(v, tuple) else ""
            if not str(why).startswith(("core::panicking", "std::rt::begin_panic")):
                continue
            if any(v for _, v, _ in use_facts(cx, s, W, h)) or not own_row(s, W, h):
                rep.ok("others-not-refused", p)
            else:
                rep.und("others-not-refused", wh(p, v), "an explicit panic whose condition is not about the use as a component")
    # only live ids become components
    for path, i in ((ADD, 2), (EB + "with_dynamic", 1), (EB + "with_dynamic_with_data", 2)):
        r = need_root(an, rep, "components-are-alive", path)
        if r is None:
            continue
        h = r.args[i]
        for s, v in r.rets():
            if alive_known(r, s, h) is True or (not effects(r.cx, s) and absent(s, v, r)):
                rep.ok("components-are-alive", path)
            elif tainted(r.cx, s.events):
                rep.und("components-are-alive", path, "an unknown function runs on this path")
            else:
                rep.bad("components-are-alive", path, "an id not known to be alive becomes a component")


def own_row(s, W, h):
    """Can h be a live entity at its recorded row?"""
    at = T("at", W.args[0])
    m = vget(fld(at, "ecs_id_meta"), uidx(h), s)
    a, i = instance(m, s)
    g = vget(fld(at, "archetypes"), a, s)
    x = s
    for f in (T("alive", fld(at, "entities"), h), eq(vget(fld(g, "entities"), i, s), h)):
        x = x.assume(f) if x is not None else None
    return x is not None


# ---------------------------------------------------------------- C22 (world)
DESTROY = ("uv.swap_remove", "uv.pop", "dropinplace")


@rule("C22")
def destructors_last(an, rep):
    """A user destructor runs only when rows, columns and locations are consistent again: nothing of them is left to do."""
    for op in world_ops(an, rep):
        cx, W, p = op.cx, op.W, op.root.fn.path
        for s, v in op.root.rets():
            if tainted(cx, s.events):
                rep.und("destructor-runs-last", p, "an unknown function runs on this path")
                continue
            seen, left = None, []
            for e in s.events:
                if e[0] == "loop" and e[1] in cx.loops:
                    L = cx.loops[e[1]]
                    for s2, _ in L.iters:
                        des = [x for x, _ in all_events(cx, L.events(s2)) if x[0] in DESTROY and not local(x[1])]
                        if des:
                            seen = seen or des[0]
                            left.append("later columns")
                if seen is not None:
                    for x, _ in all_events(cx, (e,)):
                        if x is seen:
                            continue
                        k = kind_of(x, W)
                        if k:
                            left.append(k)
                elif e[0] in DESTROY and not local(e[1]):
                    seen = e
            if seen is None:
                rep.ok("destructor-runs-last", p)
            elif not left:
                rep.ok("destructor-runs-last", wh(p, seen))
            else:
                for k in sorted(set(left)):
                    rep.bad("destructor-runs-last", p, "still to be done when a destructor panics: " + k)


def kind_of(e, W):
    if e[0] in ("uv.push_raw", "uv.swap_move_element_to_other_vec", "uv.swap_remove", "uv.pop"):
        return None if local(e[1]) else "later columns"
    if e[0] in ("ent.despawn", "ent.spawn"):
        return "release of the handle"
    if e[0] == "w" and e[1] is W:
        if e[2] and e[2][0] is pf("entities"):
            return "release of the handle"
        if e[2] and e[2][0] is pf("ecs_id_meta"):
            return "recorded locations"
        if prefix(e[2], "archetypes", "[]", "entities") is not None:
            return "list of entities"
        if e[2] and e[2][0] is ARCH:
            return "storage groups"
    return None


# ---------------------------------------------------------------- C24
BLOCKING = ("std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::lock", "std::sync::Condvar::wait",
            "std::sync::Condvar::wait_while", "std::sync::Barrier::wait", "std::sync::mpsc::Receiver::recv", "std::thread::park",
            "std::thread::JoinHandle::join", "std::sync::ReentrantLock::lock", "std::sync::poison::rwlock::RwLock::read",
            "std::sync::poison::rwlock::RwLock::write", "std::sync::poison::mutex::Mutex::lock")
WAITING = ("std::thread::yield_now", "std::hint::spin_loop", "core::hint::spin_loop", "std::thread::sleep",
           "std::sync::Condvar::wait_timeout")


def mentions(x, out):
    """(path, key) of every function named in a body"""
    if isinstance(x, dict):
        p = x.get("rpath") or x.get("path")
        if p and ("key" in x or "rkey" in x):
            out.add((p, x.get("rkey") or x.get("key")))
            if x.get("path"):
                out.add((x["path"], x.get("key")))
        for v in x.values():
            mentions(v, out)
    elif isinstance(x, list):
        for v in x:
            mentions(v, out)
    elif isinstance(x, str) and x.startswith("{"):
        try:
            mentions(json.loads(x), out)
        except ValueError:
            pass


@rule("C24")
def never_waits(an, rep):
    calls = {}
    for k, f in an.prog.fns.items():
        m = set()
        if f.body is not None:
            mentions(f.body, m)
        calls[k] = m
    impls = {}
    for k, f in an.prog.fns.items():
        impls.setdefault(f.path.split("::")[-1], set()).add(k)
    n = 0
    reported = set()
    for k, f in an.prog.fns.items():
        if not f.d.get("reachable") or f.body is None or not ("arche_tape" in f.path or k.startswith("arche_tape")):
            continue
        n += 1
        rep.functions.add(f.path)
        seen, todo = {k: (f.path,)}, [k]
        bad = None
        while todo:
            x = todo.pop()
            for path, key in calls.get(x, ()):
                if path in BLOCKING:
                    bad = (path, seen[x])
                    break
                nxt = [key] if key in an.prog.fns else []
                if not nxt and path.startswith(("arche_tape", "<")):
                    nxt = [y for y in impls.get(path.split("::")[-1], ()) if y in calls]
                for y in nxt:
                    if y not in seen:
                        seen[y] = seen[x] + (an.prog.fns[y].path,)
                        todo.append(y)
            if bad:
                break
        if bad:
            site = bad[1][-1]
            if (site, bad[0]) not in reported:
                reported.add((site, bad[0]))
                rep.bad("never-blocks", site, "waits in %s, reached from %s" % (bad[0], " -> ".join(x.split("::")[-1] for x in bad[1])))
        else:
            rep.ok("never-blocks", f.path)
    if n < 10:
        rep.und("never-blocks", "arche_tape", "the public functions were not found")
    for k, f in an.prog.fns.items():
        if f.body is None or not f.path.startswith(("arche_tape::dyn_query", "<tuple as arche_tape::static_query", "arche_tape::static_query")):
            continue
        if not any("RwLock" in p or "Mutex" in p for p, _ in calls[k]):
            continue
        r = an.root(f.path, key=k)
        if r is None:
            rep.notes.append("%s: %s" % (f.path, an.errors.get(f.path)))
            continue
        for s, v in r.rets() + r.panics():
            for e, ch in all_events(r.cx, s.events):
                if e[0] != "lock":
                    continue
                if ch and e[-1] is False and not any(x.op in ("K", "lv") and x.args[0] == ch[-1] for x in subterms(e[3])):
                    rep.bad("no-retry", wh(f.path, e), "a failed attempt to take a lock is tried again in a loop")
                else:
                    rep.ok("no-retry", f.path)


# ---------------------------------------------------------------- C18
TYPEMAP = pf("type_id_to_ecs_id")
TYPEID = WD + "get_or_create_type_id_ecsid"
CM = "arche_tape::world::ComponentMeta::"


def type_params(f):
    """Names of the type parameters of a function, as they appear in terms (a typed API has one)."""
    return [n for n in f.d.get("generics", []) if not n.startswith("'")]


def is_world(s, w, v):
    return v is w


def drop_fn_ok(an, rep, fv, T_, site, ru):
    """The function value destroys, through the pointer it is given, one value of type T_ and nothing else."""
    from .engine import Ctx, State, Unsupported, Budget
    from .bounds import B_
    if fv.op == "fn":
        import json as _j
        info = _j.loads(fv.args[1]) if fv.args[1] else {}
        path = info.get("rpath") or info.get("path")
    cx = Ctx(an.prog, M, dict(B_))
    p = T("sym", "dropped_ptr")
    try:
        res = cx.apply(None, State(), fv, [p], "")
    except (Unsupported, Budget, AttributeError, TypeError) as e:
        rep.und(ru, site, "destructor not analysed: %s" % e)
        return
    for k, s, v in res:
        if k != "ret":
            continue
        ev = [e for e in s.events if e[0] not in ("narrow",)]
        kinds = [e[0] for e in ev]
        if any(x in ("unknown", "callptr", "tcall") for x in kinds):
            rep.und(ru, site, "destructor of an unexpected form")
        elif kinds == ["dropinplace"] and ev[0][1] is p and ev[0][2] == T_:
            rep.ok(ru, site)
        elif not kinds:
            if s.decide(T("needs_drop", T_)) is False:
                rep.ok(ru, site)
            else:
                rep.bad(ru, site, "the recorded destructor destroys nothing")
        elif kinds == ["dropinplace"]:
            rep.bad(ru, site, "the recorded destructor destroys a value of type %s at %s" % (ev[0][2], short(ev[0][1], 40)))
        elif kinds == ["memread", "drop"] or kinds == ["drop"] or kinds == ["memread"]:
            rep.und(ru, site, "destructor of an unexpected form")
        else:
            rep.bad(ru, site, "the recorded destructor does %s" % ", ".join(kinds))


def meta_of_type(an, rep, s, m, T_, site, ru):
    """ComponentMeta value m carries the layout and destructor of the type named T_."""
    lay, df = fld(m, "layout"), fld(m, "drop_fn")
    size, al = fld(lay, "size"), fld(lay, "align")
    if T("layout_of", T_) is lay:
        rep.ok(ru, site)
    else:
        for what, got, want in (("size", size, T("sizeof", T_)), ("alignment", al, T("alignof", T_))):
            d = s.decide(eq(got, want, True))
            if d is True:
                rep.ok(ru, site)
            else:
                rep.bad(ru, site, "the %s recorded for type %s is %s" % (what, T_, short(got, 60)))
    var = s.variant(df)
    if var == "None":
        if s.decide(T("needs_drop", T_)) is False:
            rep.ok(ru, site)
        else:
            rep.bad(ru, site, "no destructor is recorded for type %s" % T_)
    elif var == "Some":
        drop_fn_ok(an, rep, vfld(df, "Some", "0"), T_, site, ru)
    else:
        rep.und(ru, site, "destructor %s" % short(df, 60))


@rule("C18")
def type_ids(an, rep):
    p = CM + "from_generic"
    r = need_root(an, rep, "meta-of-type", p) if an.has(p) else None
    if r is not None:
        tp = type_params(r.fn)
        for s, v in r.rets():
            meta_of_type(an, rep, s, v, tp[0] if tp else "T", p, "meta-of-type")
    for p, size in ((CM + "unit", I(0)), (CM + "from_size_align", None)):
        r = need_root(an, rep, "meta-without-type", p) if an.has(p) else None
        if r is None:
            continue
        for s, v in r.rets():
            lay = fld(v, "layout")
            want = size if size is not None else r.args[0]
            rep.check(s.decide(eq(fld(lay, "size"), want, True)) is True, "meta-without-type", p, "size is %s" % short(fld(lay, "size"), 50))
            if size is None:
                rep.check(s.decide(eq(fld(lay, "align"), r.args[1], True)) is True, "meta-without-type", p,
                          "alignment is %s" % short(fld(lay, "align"), 50))
            rep.check(s.variant(fld(v, "drop_fn")) == "None", "meta-without-type", p, "a destructor is recorded",
                      undecided=s.variant(fld(v, "drop_fn")) is None)
    p = TYPEID
    r = need_root(an, rep, "id-of-type", p)
    if r is not None:
        cx, W = r.cx, T("obj", r.args[0])
        at = T("at", r.args[0])
        tn = (type_params(r.fn) or ["T"])[0]
        tid = T("typeid", tn)
        tm = fld(at, "type_id_to_ecs_id")
        for s, v in r.rets():
            if tainted(cx, s.events):
                rep.und("id-of-type", p, "an unknown function runs on this path")
                continue
            if any(no_location(s, W, e[2]) for e, ch in all_events(cx, s.events) if e[0] == "ent.spawn") and \
                    any(e[0] == "builder.build" for e, ch in all_events(cx, s.events)):
                continue        # building records the metadata of the new id (C04): not reached
            final = cx.read(s, W, (TYPEMAP,))
            new = [e for e, ch in all_events(cx, s.events) if e[0] == "ent.spawn"]
            if not new:
                if v.op == "mget" and v.args[0] is tm and v.args[1] is tid:
                    rep.ok("id-of-type", p)
                    al = s.decide(T("alive", fld(at, "entities"), v))
                    rep.check(al is True, "id-alive", p, "the id remembered for a type is used although its entity may have been despawned")
                    rep.check(final is tm, "id-of-type", p, "the id remembered for a type changes", undecided=True)
                elif v.op == "mget" and v.args[0] is tm and v.args[1].op == "typeid":
                    rep.bad("id-of-type", p, "the id returned is that of type %s" % v.args[1].args[0])
                else:
                    rep.und("id-of-type", p, "returns %s" % short(v, 60))
                continue
            rep.check(s.decide(eq(v, new[0][2])) is True, "id-of-type", p, "the id returned is %s, not the new one" % short(v, 60))
            if s.decide(mhas(tm, tid, s)) is True:
                al = s.decide(T("alive", fld(at, "entities"), mget(tm, tid, s)))
                if al is not False:
                    rep.bad("id-of-type", p, "a type that has a live id is given another one")
            got = mget(final, tid, s) if s.decide(mhas(final, tid, s)) is True else None
            if got is None:
                rep.bad("id-remembered", p, "the new id is not remembered for the type")
            else:
                rep.check(s.decide(eq(got, v)) is True, "id-remembered", p, "%s is remembered instead of the new id" % short(got, 60))
            m = vget(cx.read(s, W, (pf("ecs_id_meta"),)), uidx(v), s)
            cm = fld(vfld(m, "Some", "0"), "component_meta")
            bs = [e for e, ch in all_events(cx, s.events) if e[0] == "builder.build"]
            written = cm.op == "agg"
            if not written and bs:
                b = bs[-1][1]
                cm = fld(b, "component_meta")
            meta_of_type(an, rep, s, cm, tn, p, "meta-of-id")
            if not bs and not any(e[0] == "w" and e[1] is W and ARCH in e[2] for e, ch in all_events(cx, s.events)):
                rep.und("id-has-entity", p, "the entity of the new id is made in a form not covered")
            else:
                rep.ok("id-has-entity", p)
    typed_users(an, rep)
    metas_kept(an, rep)


def typed_users(an, rep):
    def comp_id(s, v, W, tn, site, what):
        tm = fld(T("at", W.args[0]), "type_id_to_ecs_id")
        if v is T("compid", tn) or (v.op == "mget" and v.args[0] is tm and v.args[1] is T("typeid", tn)):
            rep.ok("typed-operation-id", site)
        elif v.op == "compid" or v.op == "mget" and v.args[1].op == "typeid":
            rep.bad("typed-operation-id", site, "%s uses the id of type %s" % (what, v.args[0] if v.op == "compid" else v.args[1].args[0]))
        else:
            rep.bad("typed-operation-id", site, "%s uses the id %s" % (what, short(v, 60)))

    for path, kind, ci, pi_ in ((WD + "add_component", "world.add", 3, 4), (WD + "remove_component", "world.remove", 3, None),
                                (EB + "with", "builder.with", 3, 2)):
        r = need_root(an, rep, "typed-operation-id", path)
        if r is None:
            continue
        cx = r.cx
        tn = (type_params(r.fn) or ["T"])[-1]
        W = T("obj", r.args[0] if not path.startswith(EB) else fld(r.args[0], "world"))
        for s, v in r.rets():
            ev = [e for e, ch in all_events(cx, s.events) if e[0] == kind]
            if tainted(cx, s.events) or len(ev) != 1:
                if not ev and not tainted(cx, s.events) and not effects(cx, s) and alive_known(r, s, r.args[1]) is False:
                    rep.ok("typed-operation-id", path)
                elif not tainted(cx, s.events) and len(ev) > 1 and len({(e[2] if kind != "builder.with" else None, e[ci]) for e in ev}) == 1:
                    rep.bad("typed-operation-id", wh(path, ev[1]), "the untyped operation is carried out %d times" % len(ev))
                elif not tainted(cx, s.events) and not ev and not any(
                        e[0] in EFFECTS or e[0].startswith(("world.", "builder.")) and e[0] != "world.typeid" for e, _ in all_events(cx, s.events)):
                    rep.bad("typed-operation-id", path, "the operation returns without having any effect")
                else:
                    rep.und("typed-operation-id", path, "%d calls of the untyped operation" % len(ev))
                continue
            e = ev[0]
            site = wh(path, e)
            comp_id(s, e[ci], W, tn, site, "the operation")
            if kind != "builder.with":
                rep.check(s.decide(eq(e[2], r.args[1])) is True, "typed-operation-id", site, "the operation is applied to another entity")
            if pi_ is not None:
                x = e[pi_]
                n = 0
                if x.op != "ref":
                    rep.und("typed-operation-id", site, "data pointer %s" % short(x, 40))
                    continue
                st = State()
                st.store = dict(e[-1])
                val = cx.read(st, x.args[0], x.args[1:])
                while val.op == "agg" and len(val.args) == 5 and n < 4:
                    val = val.args[4]
                    n += 1
                data = r.args[-1]
                rep.check(val is data, "typed-operation-data", site, "the data given to the untyped operation is %s" % short(val, 60),
                          undecided=contains(val, data) or val.op == "ref")
    path = WD + "has_component"
    r = need_root(an, rep, "typed-test", path)
    if r is not None:
        cx, W = r.cx, T("obj", r.args[0])
        at = T("at", r.args[0])
        tn = (type_params(r.fn) or ["T"])[0]
        tm, tid = fld(at, "type_id_to_ecs_id"), T("typeid", tn)
        h = r.args[1]
        for s, v in r.rets():
            for want in (True, False):
                x = s.assume(v, want) if s.decide(v) is None else (s if s.decide(v) is want else None)
                if x is None:
                    continue
                own = own_group(cx, x, W, h)
                d = has_comp(x, own, mget(tm, tid, x)) if own is not None else None
                reg = x.decide(mhas(tm, tid, x))
                al = alive_known(r, x, h)
                if want:
                    if d is True and reg is True:
                        rep.ok("typed-test", path)
                    elif tainted(cx, x.events):
                        rep.und("typed-test", path, "an unknown function runs on this path")
                    else:
                        rep.bad("typed-test", path, "true is reported without finding the type's id in the entity's group")
                else:
                    if reg is False or al is False or d is False:
                        rep.ok("typed-test", path)
                    elif d is True:
                        rep.bad("typed-test", path, "false is reported although the entity's group has the type's id")
                    elif no_location(x, W, h):
                        rep.ok("typed-test", path)
                    else:
                        rep.und("typed-test", path, "false is reported on a path not covered")


def no_location(s, W, h):
    m = fld(T("at", W.args[0]), "ecs_id_meta")
    return s.decide(le(vlen(m), uidx(h))) is True or s.variant(vget(m, uidx(h), s)) == "None"


def own_group(cx, s, W, h):
    at = T("at", W.args[0])
    m = vget(fld(at, "ecs_id_meta"), uidx(h), s)
    a, i = instance(m, s)
    return vget(fld(at, "archetypes"), a, s)


def has_comp(s, g, c):
    d = s.decide(mhas(fld(g, "comp_lookup"), c, s))
    if d is None:
        d = s.decide(T("contains", fld(g, "comp_ids"), c))
    if d is None and g.op == "vget" and g.args[0].op == "fld" and g.args[0].args[1] == "archetypes":
        # the registration of groups by component (C09)
        reg = fld(g.args[0].args[0], "archetype_bitset")
        if s.decide(T("hasbits", reg, c)) is False:
            return False
        for t in list(s.variants) + list(s.bools):
            for x in walk_bits(t):
                if contains(x.args[0], reg) and contains(x.args[0], c) and s.decide(eq(x.args[1], g.args[1], True)) is True:
                    if s.variant(x) == "None":
                        return False
                    d = s.decide(vfld(x, "Some", "0"))
                    if d is not None:
                        return d
    return d


def walk_bits(t):
    if t.op == "bitget":
        yield t
    for x in t.args:
        if isinstance(x, Term):
            yield from walk_bits(x)


def same_option(s, a, b):
    if a is b:
        return True
    va, vb = s.variant(a), s.variant(b)
    if va != vb or va is None:
        return False
    return va == "None" or s.decide(eq(vfld(a, "Some", "0"), vfld(b, "Some", "0"))) is True


def metas_kept(an, rep):
    """No operation on entities changes what is recorded about ids as components; a built entity gets the builder's."""
    ru = "meta-kept"
    for op in world_ops(an, rep):
        cx, W, p = op.cx, op.W, op.root.fn.path
        for s, v in op.root.rets():
            if tainted(cx, s.events):
                rep.und(ru, p, "an unknown function runs on this path")
                continue
            ev = [(e, ch) for e, ch in all_events(cx, s.events) if e[0] == "w" and e[1] is W and e[2] and e[2][0] is pf("ecs_id_meta")]
            for e, ch in ev:
                path = e[2]
                site = wh(p, e)
                if len(path) < 2:
                    val = e[3]
                    # grown by empty slots, or one slot set
                    if op.kind == "build":
                        continue
                    rep.und(ru, site, "the metadata list is replaced")
                    continue
                if pf("instance_meta") in path:
                    rep.ok(ru, site)
                    continue
                if pf("component_meta") in path:
                    rep.bad(ru, site, "what is recorded about an id as a component changes")
                    continue
                own = s.decide(eq(path[1].args[0], uidx(op.entity), True)) is True if path[1].op == "pi" else False
                if op.kind == "despawn" and own and s.variant(e[3]) == "None":
                    rep.ok(ru, site)
                    continue
                if op.kind == "build" and own:
                    continue
                idx = path[1].args[0] if path[1].op == "pi" else None
                old = vget(fld(T("at", W.args[0]), "ecs_id_meta"), idx, s) if idx is not None else None
                new = e[3]
                if old is not None and fld(vfld(new, "Some", "0"), "component_meta") is fld(vfld(old, "Some", "0"), "component_meta"):
                    rep.ok(ru, site)
                elif own and op.kind != "despawn" or s.variant(new) == "None":
                    rep.bad(ru, site, "what is recorded about an id as a component changes")
                else:
                    rep.und(ru, site, "metadata written in a form not covered")
            if op.kind == "build":
                m = final_meta(cx, s, W, op.entity)
                m = norm(s, m)
                cm = fld(vfld(m, "Some", "0"), "component_meta")
                want = fld(op.root.args[0], "component_meta")
                if cm is want or (s.decide(eq(fld(fld(cm, "layout"), "size"), fld(fld(want, "layout"), "size"), True)) is True
                                  and s.decide(eq(fld(fld(cm, "layout"), "align"), fld(fld(want, "layout"), "align"), True)) is True
                                  and same_option(s, fld(cm, "drop_fn"), fld(want, "drop_fn"))):
                    rep.ok(ru, p)
                else:
                    rep.bad(ru, p, "the new entity is recorded with %s as a component instead of what its builder carries" % short(cm, 60))
    # what builders are made with
    for path, want in ((WD + "spawn", "unit"), (WD + "spawn_with_capacity", "unit"), (WD + "spawn_with_component_meta", "arg")):
        if not an.has(path):
            continue
        r = need_root(an, rep, "builder-meta", path, inline=(EB + "new", EB + "with_capacity"))
        if r is None:
            continue
        for s, v in r.rets():
            cm = fld(v, "component_meta")
            if want == "arg":
                rep.check(cm is r.args[1] or (fld(cm, "layout") is fld(r.args[1], "layout") and fld(cm, "drop_fn") is fld(r.args[1], "drop_fn")),
                          "builder-meta", path, "the builder carries %s instead of the given metadata" % short(cm, 60))
            else:
                rep.check(s.decide(eq(fld(fld(cm, "layout"), "size"), I(0), True)) is True and s.variant(fld(cm, "drop_fn")) == "None",
                          "builder-meta", path, "a plain entity expects data as a component: %s" % short(cm, 60))
    for k, f in an.prog.fns.items():
        if f.body is None or not f.d.get("reachable") or not f.path.startswith((WD, EB)) or f.path in (TYPEID, ADD, REM, DESP, BUILD):
            continue
        r = an.root(f.path, key=k)
        if r is None:
            continue
        for s, v in r.rets():
            for e, ch in all_events(r.cx, s.events):
                if e[0] == "w" and e[1].op != "loc" and e[2] and e[2][0] is TYPEMAP:
                    rep.und("only-writer", wh(f.path, e), "the ids of types are changed outside get_or_create_type_id_ecsid")
                if e[0] == "w" and e[1].op != "loc" and pf("component_meta") in e[2]:
                    rep.und("only-writer", wh(f.path, e), "what is recorded about an id as a component is changed elsewhere")
        rep.ok("only-writer", f.path)


@rule("C16")
def caller_copy(an, rep):
    """A value given to a typed operation is moved into the world, not dropped by the operation as well."""
    for path, kind in ((WD + "add_component", "world.add"), (EB + "with", "builder.with")):
        r = need_root(an, rep, "caller-copy", path)
        if r is None:
            continue
        cx = r.cx
        data = r.args[-1]
        for s, v in r.rets():
            evs = list(s.events)
            i = next((n for n, e in enumerate(evs) if e[0] == kind), None)
            if tainted(cx, s.events):
                rep.und("caller-copy", path, "an unknown function runs on this path")
                continue
            drops = [n for n, e in enumerate(evs) if e[0] == "drop" and contains(e[2], data)]
            inplace = [n for n, e in enumerate(evs) if e[0] == "dropinplace"]
            if i is None:
                rep.check(len(drops) == 1, "caller-copy", path, "a value that is not stored is dropped %d times" % len(drops), undecided=True)
                continue
            rep.check(not drops and not inplace, "caller-copy", wh(path, evs[i]), "the value handed to the world is dropped by the operation as well")
            if kind == "world.add":
                rep.check(alive_known(r, s, r.args[1]) is True, "caller-copy", wh(path, evs[i]),
                          "the value is given up although the entity may be dead, so it is never dropped")


@rule("C16")
def destructor_of_type(an, rep):
    """The destructor that will run on a value is the one of its own type."""
    p = CM + "from_generic"
    r = need_root(an, rep, "meta-of-type", p) if an.has(p) else None
    if r is not None:
        tp = type_params(r.fn)
        for s, v in r.rets():
            meta_of_type(an, rep, s, v, tp[0] if tp else "T", p, "meta-of-type")


# ---------------------------------------------------------------- C20
def row_changes(cx, s, W):
    """Changes to entities, rows, columns and locations on a path (not: new groups, registrations, caches, locks)."""
    out = []
    for e, ch in all_events(cx, s.events):
        if e[0] in ("uv.push_raw", "uv.swap_remove", "uv.pop", "uv.swap_move_element_to_other_vec"):
            if not local(e[1]):
                out.append(e)
        elif e[0] in ("ent.spawn", "ent.despawn"):
            out.append(e)
        elif e[0] == "w" and e[1] is W and e[2]:
            if e[2][0] in (pf("ecs_id_meta"), pf("entities")) or prefix(e[2], "archetypes", "[]", "entities") is not None:
                out.append(e)
    return out


EXPLICIT = ("core::panicking", "std::rt::begin_panic")


def explicit(v):
    return isinstance(v, tuple) and str(v[0]).startswith(EXPLICIT)


@rule("C20")
def invalid_requests(an, rep):
    for op in world_ops(an, rep):
        if op.kind in ("add", "remove"):
            presence(an, rep, op)
        elif op.kind == "build":
            duplicates(an, rep, op)
    dataless(an, rep)


def presence(an, rep, op):
    cx, W, p = op.cx, op.W, op.root.fn.path
    ru = "presence-checked"
    valid = op.kind == "remove"         # what must be the case for a valid request: the entity has the component
    txt = "already has" if not valid else "does not have"
    for s, v in op.root.rets():
        own = own_group(cx, s, W, op.entity)
        d = has_comp(s, own, op.comp)
        ch = row_changes(cx, s, W)
        if tainted(cx, s.events):
            rep.und(ru, p, "an unknown function runs on this path")
        elif ch:
            if d is valid:
                rep.ok(ru, wh(p, ch[0]))
            elif any(e[0] == "w" and e[1] is W and len(e[2]) == 1 and e[2][0] is ARCH for e, _ in all_events(cx, s.events)):
                # a group derived from the entity's own: its constructor rejects the request itself
                rep.ok(ru, wh(p, ch[0])) if ctor_checks(an, valid) else rep.bad(
                    ru, wh(p, ch[0]), "a component that the entity %s is moved" % txt)
            else:
                rep.bad(ru, wh(p, ch[0]), "carried out without testing whether the entity %s the component" % ("has" if valid else "already has"))
        else:
            al = [alive_known(op.root, s, h) for h in (op.entity, op.comp)]
            if False in al:
                rep.ok(ru, p)
            elif d is (not valid):
                rep.bad(ru, p, "a component that the entity %s is accepted without effect instead of being rejected" % txt)
            elif d is valid:
                rep.bad(ru, p, "a valid request returns without effect")
            elif al == [True, True] or all(a is True or not mentioned(s, h) for a, h in zip(al, (op.entity, op.comp))):
                rep.bad(ru, p, "a request returns without effect and without being rejected")
            else:
                rep.und(ru, p, "returns without effect on a path not covered")
    for s, v in op.root.panics():
        ch = row_changes(cx, s, W)
        if not ch:
            continue
        d = has_comp(s, own_group(cx, s, W, op.entity), op.comp)
        if d is (not valid):
            rep.bad("rejected-before-change", wh(p, ch[0]), "a component that the entity %s is rejected after rows have been changed" % txt)
        elif d is valid and explicit(v) and unrecorded(cx, s, op.comp):
            rep.bad("rejected-before-change", wh(p, ch[0]),
                    "a valid request is rejected after rows have been changed: the component can be passed over without being recorded")
        elif d is valid:
            rep.ok("rejected-before-change", p)


def unrecorded(cx, s, c):
    """A path on which a loop has recorded nothing: is there an iteration that meets component c and leaves it unrecorded?"""
    others = [(y.args[0], y.args[1]) for a, b in s.nes for x, y in ((a, b), (b, a)) if x is c and y.op == "vget"]
    for lv, var in s.variants.items():
        if var != "None" or lv.op != "lv" or lv not in cx.lvs:
            continue
        L, pos = cx.lvs[lv]
        for st, _ in L.iters:
            new = cx.read(st, pos[0], pos[1])
            if st.variant(new) != "None" or L.id is None:
                continue
            for a, b in st.eqs:
                y = b if a is c else a if b is c else None
                if y is not None and y.op == "vget" and any(x.op == "K" and x.args[0] == L.id for x in subterms(y.args[1])):
                    if not any(z is y.args[0] and (j is y.args[1] or st.decide(le(j, y.args[1])) is True) for z, j in others):
                        return True
    return False


def mentioned(s, h):
    """Does any fact of the path speak of handle h?"""
    ts = list(s.bools) + list(s.variants) + list(s.ints) + [x for ab in s.eqs for x in ab]
    return any(contains(t, h) for t in ts)


LASTS = ("the component that sorts last in the larger group", "a component that does not sort last in the larger group")


@rule("C20")
def valid_requests(an, rep):
    """Every kind of valid request has a path that carries it out: no case is rejected on all of them."""
    ru = "valid-carried-out"
    for op in world_ops(an, rep):
        cx, W, p = op.cx, op.W, op.root.fn.path
        rets = [s for s, v in op.root.rets()]
        if any(tainted(cx, s.events) for s in rets):
            rep.und(ru, p, "an unknown function runs on a path")
            continue
        eff = [s for s in rets if row_changes(cx, s, W)]
        if not eff:
            rep.bad(ru, p, "no request is carried out")
            continue
        cases = []
        if op.kind in ("add", "remove", "build"):
            cases.append(("a request that needs a new group",
                          lambda s: any(e[0] == "w" and e[1] is W and len(e[2]) == 1 and e[2][0] is ARCH for e, _ in all_events(cx, s.events))))
        if op.kind in ("add", "remove"):
            cases.append((LASTS[0], lambda s: sorts_last(cx, s, op) is not False))
            cases.append((LASTS[1], lambda s: sorts_last(cx, s, op) is not True))
        if op.kind in ("add", "remove", "despawn"):
            def last_row(s):
                own = own_group(cx, s, W, op.entity)
                m = vget(fld(T("at", W.args[0]), "ecs_id_meta"), uidx(op.entity), s)
                return s.decide(eq(add(instance(m, s)[1], I(1)), vlen(fld(own, "entities")), True))
            cases.append(("an entity in the last row of its group", lambda s: last_row(s) is not False))
            cases.append(("an entity that is not in the last row of its group", lambda s: last_row(s) is not True))

            def pinned(s):
                ents = fld(own_group(cx, s, W, op.entity), "entities")
                return any(x is op.entity and y.op == "vget" and y.args[0] is ents and y.args[1].op == "int" for a, b in s.eqs for x, y in ((a, b), (b, a)))
            cases.append(("an entity that is not in a fixed row of its group", lambda s: not pinned(s)))
        for txt, f in cases:
            rep.check(any(f(s) for s in eff), ru, p, "rejects %s" % txt)
    for n, valid in (("from_archetype_with", False), ("from_archetype_without", True)):
        r = an.root(AR + n) if an.has(AR + n) else None
        if r is None:
            continue
        g, h = T("at", r.args[0]), r.args[-1]
        rep.check(any(has_comp(s, g, h) is not (not valid) for s, v in r.rets()), ru, AR + n, "rejects every valid request")


def sorts_last(cx, s, op):
    """Is the component known to be (or not to be) the last id of a group's list?"""
    own = fld(own_group(cx, s, op.W, op.entity), "comp_ids")

    def lastof(t):
        return t.op == "vget" and t.args[1] is sub(vlen(t.args[0]), I(1)) and (op.kind == "remove" or t.args[0] is not own)
    for a, b in s.eqs:
        for x, y in ((a, b), (b, a)):
            if x is op.comp and lastof(y):
                return True
    for f, v in s.bools.items():
        if f.op == "eq" and len(f.args) == 2:
            for x, y in (f.args, f.args[::-1]):
                if x is op.comp and lastof(y):
                    return v
    return None


def ctor_checks(an, valid):
    p = AR + ("from_archetype_without" if valid else "from_archetype_with")
    r = an.root(p)
    if r is None:
        return False
    g = T("at", r.args[0])
    h = r.args[-1]
    return all(has_comp(s, g, h) is valid for s, v in r.rets())


def duplicates(an, rep, op):
    cx, W, p = op.cx, op.W, op.root.fn.path
    ru = "duplicates-rejected"
    ids = op.ids
    # each staging operation may reject duplicates itself
    staged = True
    for n in ("with_dynamic", "with_dynamic_with_data"):
        r = an.root(EB + n)
        if r is None:
            staged = False
            continue
        h = r.args[-1]
        for s, v in r.rets():
            if s.decide(T("contains", fld(r.args[0], "comp_ids"), h)) is not False:
                staged = False
    for s, v in op.root.rets():
        if tainted(cx, s.events):
            rep.und(ru, p, "an unknown function runs on this path")
            continue
        if staged or s.decide(le(vlen(ids), I(1))) is True or s.decide(eq(vlen(T("vdedup", T("vsorted", ids))), vlen(ids), True)) is True:
            rep.ok(ru, p)
            continue
        verdict = None
        changed = False
        for e in s.events:
            if e[0] == "loop" and e[1] in cx.loops:
                L = cx.loops[e[1]]
                x = dedupe(cx, s, L, ids)
                if x[0] is not None:
                    if changed and x[0] == "ok":
                        x = ("bad", "the same component twice is rejected after rows have been changed")
                    if verdict is None or x[0] == "ok":
                        verdict = x
            if not changed and row_changes(cx, _Only(s, e), W):
                changed = True
        if verdict is None:
            new = any(e[0] == "w" and e[1] is W and len(e[2]) == 1 and e[2][0] is ARCH for e, _ in all_events(cx, s.events))
            rep.bad(ru, p, "the ids of the new entity are not tested for duplicates" + (" before its group is made" if new else ""))
        elif verdict[0] == "ok":
            rep.ok(ru, p)
        elif verdict[0] == "bad":
            rep.bad(ru, p, verdict[1])
        else:
            rep.und(ru, p, verdict[1])


class _Only:
    """A path reduced to one event."""
    def __init__(self, s, e):
        self.events = (e,)


def dedupe(cx, s, L, ids):
    """Does loop L make sure that no two of the ids are equal?"""
    its, about, near = [], False, []
    for s2, _ in L.iters:
        k = None
        for f, v in s2.bools.items():
            if f in L.head.bools or v or f.op != "contains":
                continue
            x = f.args[1]
            if not (x.op == "vget" and x.args[0] is ids):
                continue
            about = True
            i = x.args[1]
            sl = f.args[0]
            if sl.op != "slice" or sl.args[0] is not ids:
                continue
            lo, hi = sl.args[1], sl.args[2]
            if (s2.decide(le(lo, I(0))) is True and s2.decide(le(i, hi)) is True and s2.decide(le(hi, i)) is True) or (
                    s2.decide(eq(lo, add(i, I(1)), True)) is True and s2.decide(le(vlen(ids), hi)) is True):
                k = i
            else:
                return "bad", "ids are compared only with %s" % short(sl, 60)
        for e in L.events(s2):
            if e[0] != "loop" or e[1] not in cx.loops:
                continue
            Li = cx.loops[e[1]]
            if not any(contains(t, ids) for s3, _ in Li.iters for pair in s3.nes for t in pair):
                continue
            about = True
            x = compared(cx, s2, Li, ids)
            if isinstance(x, tuple):
                return x
            k = x
        put = [e for e in L.events(s2) if e[0] == "minsert" and isinstance(e[2], Term) and contains(e[2], ids)]
        if put:
            r, q = refpath(put[0][1])
            m0 = initial(cx, L, (r, q))
            m1 = cx.read(s2, r, q)
            x = put[0][2]
            if len(put) == 1 and not put[0][4] and m0.op == "mnew" and m1.op == "mins" and m1.args[1] is x and m1.args[0].op in ("lv", "mcomp") and \
                    x.op == "vget" and x.args[0] is ids:
                # each id is put into a set that did not have it
                about = True
                its.append((s2, x.args[1]))
                continue
            if put[0][4] and x.op == "vget" and x.args[0] is ids and m0.op == "mnew":
                return "bad", "the same component twice is noticed, but not rejected"
            return "undecided", "ids collected in a set"
        for a, b in s2.nes:
            if (a, b) in L.head.nes or not (a.op == b.op == "vget" and a.args[0] is b.args[0] and sub(a.args[1], b.args[1]).op == "int"):
                continue
            if a.args[0] is ids:
                return "bad", "ids are compared only with their neighbour"
            if a.args[0].op == "vsorted" and a.args[0].args[0] is ids:
                # equal ids are neighbours in a sorted list
                d = sub(a.args[1], b.args[1])
                near.append((s2, a.args[1] if d is I(-1) else b.args[1] if d is I(1) else None))
                break
        if near and near[-1][0] is s2:
            continue
        if any(t.op == "vget" and contains(t, ids) for pair in s2.nes if pair not in L.head.nes for t in pair):
            return "undecided", "ids compared one by one"
        its.append((s2, k))
    if near:
        if len(near) != len(L.iters) or any(k is None for _, k in near):
            return "undecided", "not every pair of neighbours is compared"
        s0, p0 = near[0]
        h = header(cx, L, s0, p0)
        if h is None or any(header(cx, L, s2, p) is None or sub(p, p0) is not I(0) or sub(cx.read(s2, h[0][0], h[0][1]), h[1]) is not I(1) for s2, p in near):
            return "undecided", "enumeration not covered"
        off = sub(p0, h[1])
        first = add(off, I(0) if h[1].op == "K" else initial(cx, L, h[0]))
        if off.op != "int" or first.op != "int":
            return "undecided", "enumeration not covered"
        if first.args[0] != 0:
            return "bad", "the test for duplicates starts at position %d" % first.args[0]
        en = Enum()
        en.hv = p0
        if exhausted(s, en, sub(vlen(ids), I(1))):
            return "ok", ""
        return "bad", "the test for duplicates ends before the last id"
    if not about:
        if any(contains(t, ids) or t.op == "lv" for s2, _ in L.iters for f in s2.bools if f.op == "contains" and f not in L.head.bools for t in subterms(f)):
            return "undecided", "ids tested in a form that is not covered"
        return None, ""
    for s2, k in its:
        if k is not None:
            continue
        # nothing precedes the first id; otherwise an id may be passed over only if that is known to be harmless
        kk = next((q for _, q in its if q is not None), None)
        if kk is not None and s2.decide(le(kk, I(0))) is True:
            continue
        extra = [f for f in s2.bools if f not in L.head.bools]
        if kk is not None and not any(e[0] not in ("loop",) for e in L.events(s2)) and \
                all(f.op == "contains" and s2.bools[f] and f.args[0].op == "slice" and f.args[0].args[0] is ids and f.args[1].op == "vget" and f.args[1].args[0] is ids for f in extra) \
                and not set(s2.nes) - set(L.head.nes) and s2.decide(lt(kk, vlen(ids))) is True and \
                all(a is kk or a is vlen(ids) or a in parts(kk)[1] for p in s2.ints if p not in L.head.ints for a in parts(p)[1]):
            return "bad", "ids are passed over in the test for duplicates, although others precede them"
        return "undecided", "an id is passed over in the test for duplicates"
    its = [(s2, k) for s2, k in its if k is not None]
    # starting at the second id is the same: the first has nothing before it
    if its:
        k0 = its[0][1]
        h = header(cx, L, its[0][0], k0)
        if h is not None and sub(k0, h[1]) is I(0):
            i0 = I(0) if h[1].op == "K" else initial(cx, L, h[0])
            en = Enum()
            en.hv = h[1]
            if i0.op == "int" and i0.args[0] > 1:
                return "bad", "the test for duplicates starts at position %d" % i0.args[0]
            for s2, k in its:
                if sub(cx.read(s2, h[0][0], h[0][1]), k) is not I(1):
                    return "undecided", "enumeration not covered"
            if exhausted(s, en, sub(vlen(ids), I(0))):
                return "ok", ""
            return "bad", "the test for duplicates ends before the last id"
    en = enum_positions(cx, L, its)
    if not en.ok:
        return ("undecided" if en.und or "position 1" in en.why else "bad"), "test for duplicates: " + en.why
    if exhausted(s, en, vlen(ids)):
        return "ok", ""
    return "bad", "the test for duplicates ends before the last id"


def compared(cx, s, L, ids):
    """The position of the id that loop L, finished in s, compares with all ids before it (or with all after it)."""
    found = []
    for s3, _ in L.iters:
        new = [(a, b) for a, b in s3.nes if (a, b) not in L.head.nes and a.op == b.op == "vget" and a.args[0] is ids and b.args[0] is ids]
        if len(new) != 1:
            return "undecided", "ids compared in a nested loop"
        found.append((s3, new[0][0].args[1], new[0][1].args[1]))
    for m, n in ((1, 2), (2, 1)):
        its = [(x[0], x[m]) for x in found]
        k = found[0][n]
        if any(x[n] is not k for x in found):
            continue
        h = header(cx, L, its[0][0], its[0][1])
        if h is None or contains(k, h[1]) or any(header(cx, L, s3, i) is None or sub(i, h[1]) is not I(0) or
                                                 sub(cx.read(s3, h[0][0], h[0][1]), i) is not I(1) for s3, i in its):
            continue
        en = Enum()
        en.hv = h[1]
        i0 = I(0) if h[1].op == "K" else initial(cx, L, h[0])
        if i0 is I(0) and exhausted(s, en, k):
            return k
        if sub(i0, k) is I(1) and exhausted(s, en, vlen(ids)):
            return k
        return "bad", "an id is compared with the ids from position %s on, not with all before it" % short(i0, 40)
    return "undecided", "ids compared in a nested loop"


def dataless(an, rep):
    ru = "dataless-checked"
    for p, ci in ((WD + "add_component_dynamic", 2), (EB + "with_dynamic", 1)):
        r = need_root(an, rep, ru, p)
        if r is None:
            continue
        h = r.args[ci]
        W = T("obj", r.args[0] if ci == 2 else fld(r.args[0], "world"))
        at = T("at", W.args[0])
        size = lambda s: fld(fld(fld(vfld(vget(fld(at, "ecs_id_meta"), uidx(h), s), "Some", "0"), "component_meta"), "layout"), "size")
        for s, v in r.rets():
            eff = effects(r.cx, s) or not absent(s, v, r)
            if tainted(r.cx, s.events):
                rep.und(ru, p, "an unknown function runs on this path")
            elif not eff:
                if s.decide(eq(size(s), I(0), True)) is False:
                    rep.bad(ru, p, "an id that expects data is accepted without effect instead of being rejected")
                elif alive_known(r, s, h) is True and s.decide(eq(size(s), I(0), True)) is True and all(
                        alive_known(r, s, r.args[i]) is True for i in entity_handles(r.fn)):
                    rep.bad(ru, p, "a valid request returns without effect")
                else:
                    rep.ok(ru, p)
            elif s.decide(eq(size(s), I(0), True)) is True:
                rep.ok(ru, p)
            else:
                rep.bad(ru, p, "accepted without testing that the id expects no data")
        for s, v in r.panics():
            if not explicit(v) or effects(r.cx, s):
                continue
            ok_ = all(alive_known(r, s, r.args[i]) is True for i in entity_handles(r.fn))
            z = s.decide(eq(size(s), I(0), True))
            if any(f.op == "contains" and v2 and f.args[1] is h for f, v2 in s.bools.items()):
                continue        # given twice
            if ok_ and z is True and s.variant(vget(fld(at, "ecs_id_meta"), uidx(h), s)) == "Some":
                rep.bad("valid-accepted", p, "an id that expects no data is rejected")
            else:
                rep.ok("valid-accepted", p)
