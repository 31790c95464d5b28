"""Boundary functions: each is analysed on its own (its specification is one of the rules); callers see an event and an
abstract result."""
from .models import *

B_ = {}


def bound(*names):
    def d(f):
        for n in names:
            B_[n] = f
        return f
    return d


UV = "untyped_vec::UntypedVec::"
WD = "arche_tape::world::World::"
EB = "arche_tape::entity_builder::EntityBuilder::"
AR = "arche_tape::world::Archetype::"
BI = "arche_tape::bitset_iterator::"
EN = "arche_tape::entities::Entities::"
EID = "arche_tape::entities::EcsId"


def where(cx, call):
    return (call["span"], call["fr"].fn.path if call.get("fr") else "")


def touched(cx, events):
    """Has any column been changed?"""
    return any(e[0].startswith("uv.") or e[0] == "loop" and (e[1] not in cx.loops or any(touched(cx, cx.loops[e[1]].events(s)) for s, _ in cx.loops[e[1]].iters))
               for e in events)


def _uv(name, ret=None, store=False):
    def f(cx, st, a, call):
        st.ev("uv." + name, *a, where(cx, call), dict(st.store) if name in ("swap_remove", "pop") else None)
        return R(st, ret(cx, st, a) if ret else UNIT)
    B_[UV + name] = f


_uv("push_raw")
_uv("swap_move_element_to_other_vec")
_uv("swap_remove")
_uv("pop", lambda cx, st, a: cx.fresh("popped"))
_uv("realloc")
for _n in ("as_immut_ptr", "as_mut_ptr"):
    B_[UV + _n] = lambda cx, st, a, c: R(st, T("uvptr", a[0]))
for _n in ("as_slice", "as_slice_mut"):
    B_[UV + _n] = lambda cx, st, a, c: R(st, T("uvslice", a[0]))
for _n in ("get_raw", "get_mut_raw"):
    def _g(cx, st, a, c):
        g = T("uvget", a[0], a[1])
        if touched(cx, st.events):
            return [("ret", st, some(g)), ("ret", st.copy(), NONE)]
        # in range or not; nothing has changed the column so far
        n = T("uvlen", a[0])
        return [("ret", s, x) for s, x in ((st.assume(lt(a[1], n)), some(g)), (st.assume(le(n, a[1])), NONE)) if s is not None]
    B_[UV + _n] = _g


@bound(UV + "len")
def uv_len(cx, st, a, c):
    return R(st, T("uvlen", a[0]))


@bound(UV + "raw_len")
def uv_rlen(cx, st, a, c):
    return R(st, T("uvrawlen", a[0]))


@bound(UV + "is_empty")
def uv_empty(cx, st, a, c):
    return R(st, eq(T("uvlen", a[0]), I(0), True))


@bound(UV + "get_type_info")
def uv_ti(cx, st, a, c):
    f = cx.prog.get(UV + "get_type_info")
    if f is not None and (f.d.get("output") or {}).get("k") == "adt":
        return R(st, T("typeinfo", a[0]))
    u = T("loc", "ti%d" % cx.uid(), 0)
    st.store[u] = T("typeinfo", a[0])
    return R(st, T("ref", u))


@bound(UV + "new_from_raw")
def uv_new(cx, st, a, c):
    return R(st, T("uvnew", a[0]))


@bound(UV + "new_from_untyped_vec")
def uv_newf(cx, st, a, c):
    return R(st, T("uvnew", T("typeinfo", a[0])))


# ---------------------------------------------------------------- Entities
@bound(EN + "spawn")
def en_spawn(cx, st, a, c):
    e = cx.load(st, a[0])
    n = cx.fresh("newid")
    st.ev("ent.spawn", a[0], n, where(cx, c))
    cx.store(st, a[0], T("ent_spawned", e, n))
    return R(st, n)


@bound(EN + "despawn")
def en_despawn(cx, st, a, c):
    e = cx.load(st, a[0])
    al = alive(e, a[1], st)
    out = []
    for b, s in cx.branch(st, al):
        s = s.copy()
        if b:
            s.ev("ent.despawn", a[0], a[1], where(cx, c))
            cx.store(s, a[0], T("ent_despawned", e, a[1]))
        out.append(("ret", s, B(b)))
    return out


def alive(ents, e, st):
    while True:
        if ents.op == "ent_spawned":
            d = st.decide(eq(e, ents.args[1]))
            if d is True:
                return TRUE
            if d is None and e.op == "sym" and ents.args[1].op == "sym" and "newid" in ents.args[1].args[0]:
                pass
            ents0 = ents.args[0]
            if d is False:
                ents = ents0
                continue
            # a handle obtained before the spawn
            ents = ents0
            continue
        if ents.op == "ent_despawned":
            d = st.decide(eq(e, ents.args[1]))
            if d is True:
                return FALSE
            if d is False:
                ents = ents.args[0]
                continue
        return T("alive", ents, e)


@bound(EN + "is_alive")
def en_alive(cx, st, a, c):
    return R(st, alive(cx.load(st, a[0]), a[1], st))


def b_eq(cx, st, a, c):
    return R(st, eq(cx.load(st, a[0]), cx.load(st, a[1])))


B_["<arche_tape::entities::EcsId as std::cmp::PartialEq>::eq"] = b_eq


@bound("<arche_tape::entities::EcsId as std::cmp::Ord>::cmp")
def b_cmp(cx, st, a, c):
    return R(st, T("cmp", cx.load(st, a[0]), cx.load(st, a[1])))


# ---------------------------------------------------------------- remembered transitions
@bound("arche_tape::world::AddRemoveCache::new")
def b_cnew(cx, st, a, c):
    return R(st, T("cache_new"))


@bound("arche_tape::world::AddRemoveCache::lookup_id")
def b_lookup(cx, st, a, c):
    r = T("cached", a[0], a[1])
    out = []
    for b, s in cx.branch(st, T("hascached", cx.load(st, a[0]), a[1])):
        s = s.copy()
        s.ev("cache.lookup", a[0], a[1], b, where(cx, c))
        out.append(("ret", s, some(r) if b else NONE))
    return out


@bound("arche_tape::world::AddRemoveCache::insert_id")
def b_insert(cx, st, a, c):
    st.ev("cache.insert", a[0], a[1], a[2], where(cx, c))
    return R(st)


# ---------------------------------------------------------------- bit sets
@bound(BI + "Bitsetsss::set_bit")
def b_setbit(cx, st, a, c):
    st.ev("bits.set", a[0], a[1], a[2], a[3], where(cx, c))
    return R(st)


@bound(BI + "Bitsetsss::push_bit")
def b_pushbit2(cx, st, a, c):
    st.ev("bits.push2", a[0], a[1], a[2], where(cx, c))
    return R(st)


@bound(BI + "Bitsetsss::insert_bitvec")
def b_insbv(cx, st, a, c):
    st.ev("bits.insert", a[0], a[1], where(cx, c))
    return R(st)


@bound(BI + "Bitsetsss::get_bitvec")
def b_getbv(cx, st, a, c):
    m = cx.load(st, a[0])
    h = T("hasbits", m, a[1])
    out = []
    for b, s in cx.branch(st, h):
        out.append(("ret", s, some(T("bitvecref", m, a[1])) if b else NONE))
    return out


@bound(BI + "Bitsetsss::new", BI + "Bitsetsss::with_capacity")
def b_bnew(cx, st, a, c):
    return R(st, T("bits_new"))


@bound(BI + "Bitvec::set_bit")
def b_bvset(cx, st, a, c):
    st.ev("bitvec.set", a[0], a[1], a[2], where(cx, c))
    return R(st)


@bound(BI + "Bitvec::push_bit")
def b_bvpush(cx, st, a, c):
    st.ev("bitvec.push", a[0], a[1], where(cx, c))
    return R(st)


@bound(BI + "Bitvec::get_bit")
def b_bvget(cx, st, a, c):
    return R(st, T("bitget", cx.load(st, a[0]), a[1]))


@bound(BI + "Bitvec::new", BI + "Bitvec::with_capacity")
def b_bvnew(cx, st, a, c):
    return R(st, T("bitvec_new"))


BITNEXT = "<arche_tape::bitset_iterator::bitset_iterator::BitsetIterator as std::iter::Iterator>::next"


@bound(BITNEXT)
def b_bitnext(cx, st, a, c):
    it = cx.load(st, a[0])
    s2 = st.copy()
    i = cx.fresh("hit")
    i = T("vfresh", i)
    st = st.assume(lt(i, fld(it, "bit_length"))) or st
    st = st.copy()
    st.ev("bitnext", it, i, where(cx, c))
    s2.ev("bitnext", it, None, where(cx, c))
    return [("ret", st, some(i)), ("ret", s2, NONE)]


# ---------------------------------------------------------------- World / builder entry points used by one another
@bound(AR + "from_archetype")
def b_from(cx, st, a, c):
    return R(st, T("garch", "copy", a[0], cx.load(st, a[0])))


@bound(AR + "from_archetype_with")
def b_fromw(cx, st, a, c):
    return R(st, T("garch", "with", a[0], cx.load(st, a[0]), a[2], a[1]))


@bound(AR + "from_archetype_without")
def b_fromwo(cx, st, a, c):
    return R(st, T("garch", "without", a[0], cx.load(st, a[0]), a[1]))


@bound(WD + "get_or_create_type_id_ecsid")
def b_typeid(cx, st, a, c):
    st.ev("world.typeid", a[0], tkey(targ(c)), where(cx, c))
    return R(st, T("compid", tkey(targ(c))))


@bound(WD + "add_component_dynamic_with_data")
def b_add(cx, st, a, c):
    st.ev("world.add", *a, where(cx, c), dict(st.store))
    return R(st)


@bound(WD + "remove_component_dynamic")
def b_rem(cx, st, a, c):
    st.ev("world.remove", *a, where(cx, c))
    return R(st)


@bound(WD + "despawn")
def b_desp(cx, st, a, c):
    st.ev("world.despawn", *a, where(cx, c))
    return R(st, cx.fresh("despawned"))


@bound(EB + "with_dynamic_with_data")
def b_withdata(cx, st, a, c):
    st.ev("builder.with", *a, where(cx, c), dict(st.store))
    return R(st, T("bwith", *a))


@bound(EB + "build")
def b_build(cx, st, a, c):
    st.ev("builder.build", a[0], where(cx, c))
    return R(st, fld(a[0], "entity"))


@bound(EB + "new", EB + "with_capacity")
def b_bnewb(cx, st, a, c):
    st.ev("builder.new", *a, where(cx, c))
    return R(st, agg("arche_tape::entity_builder::EntityBuilder", 0, "EntityBuilder",
                     ("world", "entity", "component_meta", "$new"), (a[0], a[1], a[2], TRUE)))


WORLD_B = dict(B_)


def only(*exclude):
    """All boundaries except the named functions (the ones under analysis)."""
    return {k: v for k, v in B_.items() if k not in exclude}


# ---------------------------------------------------------------- representation invariants used as facts
def contains_or_has(m, k):
    return None


def map_entry_fact(cx, st, m, k):
    """comp_lookup maps an id of the group to its position in comp_ids."""
    if m.op == "fld" and m.args[1] == "comp_lookup":
        ids = fld(m.args[0], "comp_ids")
        p = T("mget", m, k)
        st = st.assume(lt(p, vlen(ids)))
        if st is not None:
            st = st.assume(eq(vget(ids, p, st), k))
    return st
