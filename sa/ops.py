"""What the paths of the world's operations do to storage groups: entity-list operations, column operations, loops over
columns and how they enumerate them."""
from .analysis import *

ARCH = pf("archetypes")


def loops_in(cx, events):
    return [cx.loops[e[1]] for e in events if e[0] == "loop" and e[1] in cx.loops]


class ColOp:
    """A column operation on group G, column C (index term) of the world; row / ptr operands; the state it happens in."""
    def __init__(self, kind, G, C, st, ev, loop, row=None, ptr=None, other=None):
        self.kind, self.G, self.C, self.st, self.ev, self.loop = kind, G, C, st, ev, loop
        self.row, self.ptr, self.other = row, ptr, other


UVOPS = {"uv.push_raw": 1, "uv.swap_remove": -1, "uv.pop": -1, "uv.swap_move_element_to_other_vec": 0}


class Unknown_(Exception):
    pass


def path_columns(cx, s, W):
    """Column operations of one path: (top-level ops, {loop: [(iteration state, [ops])]}, problems)."""
    top, loops, problems = [], {}, []

    def ops_of(events, st, L):
        out = []
        for e in events:
            k = e[0]
            if k not in UVOPS:
                continue
            c = colref(e[1])
            if k == "uv.swap_move_element_to_other_vec":
                d = colref(e[2])
                if c is None or d is None or c[0] is not W or d[0] is not W or c[1] is None or d[1] is None:
                    problems.append((e, "moves a value between containers that are not columns of the world"))
                    continue
                a = ColOp("move_out", c[1], c[2], st, e, L, row=e[3])
                b = ColOp("move_in", d[1], d[2], st, e, L)
                a.other, b.other = b, a
                out += [a, b]
            else:
                if c is None or c[0] is not W or c[1] is None:
                    r, p = refpath(e[1])
                    if r.op == "loc":
                        continue        # a container not yet part of a group
                    problems.append((e, "operates on a container that is not a column of the world"))
                    continue
                if k == "uv.push_raw":
                    out.append(ColOp("push", c[1], c[2], st, e, L, ptr=e[2]))
                elif k == "uv.swap_remove":
                    out.append(ColOp("remove", c[1], c[2], st, e, L, row=e[2]))
                else:
                    out.append(ColOp("pop", c[1], c[2], st, e, L))
        return out

    def walk(events, st, L, depth):
        o = ops_of(events, st, L)
        if L is None:
            top.extend(o)
        for e in events:
            if e[0] == "loop" and e[1] in cx.loops:
                L2 = cx.loops[e[1]]
                if L is not None:
                    for s2, _ in L2.iters:
                        if any(x[0] in UVOPS and colref(x[1]) for x in L2.events(s2)):
                            problems.append((e, "nested loop over columns"))
                    continue
                its = []
                any_ = False
                for s2, _ in L2.iters:
                    ev2 = L2.events(s2)
                    o2 = ops_of(ev2, s2, L2)
                    walk(ev2, s2, L2, depth + 1)
                    any_ = any_ or bool(o2)
                    its.append((s2, o2))
                if any_:
                    loops[L2] = its
        return o

    walk(s.events, s, None, 0)
    return top, loops, problems


def entity_ops(cx, s, W):
    """Entity-list operations of one path: [(G, op term, event)], and new groups [(index, group value, event)]."""
    ops, new = [], []
    inloop = []
    for e, chain in all_events(cx, s.events):
        if e[0] != "w" or e[1] is not W:
            continue
        p = e[2]
        if prefix(p, "archetypes", "[]", "entities") is not None:
            if chain:
                inloop.append(e)
            else:
                ops.append((p[1].args[0], e[3], e))
        elif len(p) == 1 and p[0] is ARCH:
            if chain:
                inloop.append(e)
            elif e[3].op == "vpush":
                new.append((vlen(e[3].args[0]), e[3].args[1], e))
            else:
                inloop.append(e)
    return ops, new, inloop


def group_ids(cx, s, W, G):
    """comp_ids of group G in state s."""
    return cx.read(s, W, (ARCH, pi(G), pf("comp_ids")))


def header(cx, L, s_it, C):
    """The loop variable an index is built from: (position, header term, offset term) or None.
    C = header + (int | counters of inner filter loops)."""
    inner = set(e[1] for e in L.events(s_it) if e[0] == "loop")
    best = None
    for p, hv in L.vals.items():
        if hv.op not in ("K", "lv", "lin"):
            continue
        d = sub(C, hv)
        c, m = parts(d)
        if all(a.op == "K" and a.args[0] in inner and k == 1 for a, k in m.items()):
            if best is None or len(m) < len(parts(best[2])[1]):
                best = (p, hv, d)
    return best


def initial(cx, L, p):
    return cx.read(L.init, p[0], p[1])


class Enum:
    """How a loop enumerates positions of a vector: from 0, in steps of one, skipping only what `skips` says."""
    def __init__(self):
        self.ok = True
        self.why = ""
        self.skips = []       # (state, index term) of positions passed over
        self.hv = None
        self.kinner = []
        self.und = False
        self.rev = None       # walked from the end: the first position

    def fail(self, why):
        if self.ok:
            self.ok, self.why = False, why
        return self


def backwards(cx, L, its):
    """The position at which a walk towards the front begins, one step per round: (position, loop variable) or None."""
    r = None
    for st, C in its:
        if C is None:
            continue
        inner = set(e[1] for e in L.events(st) if e[0] == "loop")
        for p, hv in L.vals.items():
            if hv.op != "K" or initial(cx, L, p) is not I(0):
                continue
            e = add(C, hv)
            c, m = parts(e)
            left = T("int", c)
            for a, k in m.items():
                if not (a.op == "K" and a.args[0] in inner and k == -1):
                    left = add(left, scale(a, k))
            if any(x.op in ("K", "lv") and x.args[0] in inner | {L.id} for x in subterms(left)):
                continue
            if r is not None and r != (left, hv):
                return None
            r = (left, hv)
            break
        else:
            return None
    return r


def enum_positions(cx, L, its):
    """its: [(iteration state, index term or None)].  Returns Enum describing the enumeration."""
    en = Enum()
    ph = None
    for st, C in its:
        if C is None:
            continue
        h = header(cx, L, st, C)
        if h is None:
            en.und = True
            en.rev = backwards(cx, L, its)
            return en.fail("index %s does not advance with the loop" % short(C))
        if ph is None or len(parts(h[2])[1]) < 9:
            if ph is not None and ph[1] is not h[1]:
                return en.fail("two different loop variables index the same group")
            ph = h
    if ph is None:
        en.und = True
        return en.fail("nothing is indexed")
    p, hv = ph[0], ph[1]
    en.hv = hv
    i0 = initial(cx, L, p)
    if hv.op == "K":
        i0 = I(0)
    c0, m0 = parts(i0)
    if i0.op == "int" and i0.args[0] != 0:
        return en.fail("enumeration starts at position %d" % i0.args[0])
    if m0:
        en.und = True
        if all(C is not None and sub(C, hv) is I(-1) and sub(cx.read(st, p[0], p[1]), hv) is I(-1) for st, C in its):
            # counted down from i0
            en.rev = (sub(i0, I(1)), sub(i0, hv))
        return en.fail("enumeration starts at %s" % short(i0))
    for st, C in its:
        fv = cx.read(st, p[0], p[1])
        if hv.op == "K":
            fv0 = fv
        step = sub(fv, hv)
        if C is None:
            cs, ms = parts(step)
            if not ms and cs == 0:
                continue
            if not ms and cs == 1:
                en.skips.append((st, hv))
                continue
            en.und = True
            return en.fail("positions passed over without an operation")
        d = sub(C, hv)
        cd, md = parts(d)
        for a in md:
            L2 = cx.loops.get(a.args[0])
            if L2 is None:
                en.und = True
                return en.fail("unknown inner loop")
            en.kinner.append(a)
            for s2, _ in L2.iters:
                en.skips.append((s2, add(hv, a)))
        if 1 <= cd <= 4 and not md:
            for i in range(cd):
                en.skips.append((st, add(hv, I(i))))
            en.jumps = True
        elif cd != 0:
            return en.fail("starts at offset %d" % cd)
        after = sub(fv, C)
        if after is not I(1):
            if after.op == "int":
                return en.fail("advances by %s per operation" % short(after))
            en.und = True
            return en.fail("advances by %s" % short(after))
    return en


def exhausted(s, en, n):
    """Is the enumeration known to have reached n at the end of this path?"""
    if en.hv is None:
        return False
    cands = [en.hv] + [add(en.hv, k) for k in en.kinner]
    return any(s.decide(le(n, c)) is True for c in cands)


def norm(st, t, memo=None):
    """Re-evaluate container reads inside a term with the facts of a state."""
    if memo is None:
        memo = {}
    if not isinstance(t, Term) or not t.args:
        return t
    if t in memo:
        return memo[t]
    if t.op in ("vget", "fld", "lin", "mul", "with"):
        if t.op == "lin":
            r = I(t.args[0])
            for a, k in t.args[1]:
                r = add(r, scale(norm(st, a, memo), k))
        elif t.op == "mul":
            r = I(1)
            for a in t.args:
                r = mul(r, norm(st, a, memo))
        elif t.op == "vget":
            r = vget(norm(st, t.args[0], memo), norm(st, t.args[1], memo), st)
        elif t.op == "with":
            r = norm(st, t.args[0], memo)
            for k, v in t.args[1]:
                r = withf(r, k, norm(st, v, memo))
        else:
            b = norm(st, t.args[0], memo)
            f = t.args[1]
            if "." in f and b.op == "agg":
                vn, fn_ = f.split(".")
                r = vfld(b, vn, fn_) if b.args[2] == vn else T("fld", b, f)
            else:
                r = fld(b, f)
    else:
        r = t
    memo[t] = r
    return r


def final_meta(cx, s, W, x):
    """Final metadata (Option<EntityMeta>) of the slot of entity x."""
    v = cx.read(s, W, (pf("ecs_id_meta"),))
    return vget(v, uidx(x), s)


def entity_row_fact(s, a, b):
    """Two different live entities occupy different slots."""
    return s.assume(neg(eq(uidx(a), uidx(b), True)))


def instance(m, st=None):
    if st is not None:
        m = norm(st, m)
    im = fld(vfld(m, "Some", "0"), "instance_meta")
    return fld(fld(im, "archetype"), "0"), fld(im, "index")


# ---------------------------------------------------------------- the operations of the world
ADD = WD + "add_component_dynamic_with_data"
REM = WD + "remove_component_dynamic"
DESP = WD + "despawn"
BUILD = EB + "build"


class Op:
    def __init__(self, kind, root, W, entity, comp):
        self.kind, self.root, self.W, self.entity, self.comp = kind, root, W, entity, comp
        self.cx = root.cx


def world_ops(an, rep):
    out = []
    for kind, path in (("add", ADD), ("remove", REM), ("despawn", DESP), ("build", BUILD)):
        if kind == "build":
            r = an.root(path, facts=builder_facts)
        else:
            r = an.root(path)
        if r is None:
            rep.und("root", path, "not analysed: %s" % an.errors.get(path))
            continue
        rep.functions.add(path)
        rep.functions |= set(r.cx.inlined)
        rep.paths += len(r.res)
        if kind == "build":
            self_ = r.args[0]
            op = Op(kind, r, T("obj", fld(self_, "world")), fld(self_, "entity"), None)
            op.ids = fld(self_, "comp_ids")
        else:
            op = Op(kind, r, T("obj", r.args[0]), r.args[1], r.args[2] if len(r.args) > 2 else None)
        if not getattr(r, "pruned", False):
            r.res = [(k, s2, v) for k, s, v in r.res for s2 in (prune(op, s),) if s2 is not None]
            r.pruned = True
        out.append(op)
    return out


def prune(op, s):
    """The state with what the entity lists guarantee (an entity is in one row; the entity of a row has metadata), or None when
    the path contradicts it."""
    if op.entity is None:
        return s
    cx, W = op.cx, op.W
    metas = fld(T("at", W.args[0]), "ecs_id_meta")
    ops, _, _ = entity_ops(cx, s, W)
    moved = []
    for G, val, e in ops:
        if val.op not in ("vswaprm", "vrm") or val.args[0].op != "fld":
            continue
        base, row = val.args[0], val.args[1]
        last = sub(vlen(base), I(1))
        if s.decide(le(last, row)) is True:
            continue
        x = vget(base, last, s)
        if s.decide(eq(x, op.entity)) is True:
            # an entity is in the list once, where its location says: the last row is the one removed
            a, i = instance(vget(metas, uidx(op.entity), s), s)
            if s.decide(eq(a, G, True)) is True and s.decide(eq(i, row, True)) is True:
                s = s.assume(eq(last, row, True))
                if s is None:
                    return None
                continue
        moved.append(x)
        s = entity_row_fact(s, x, op.entity) or s
    if not moved:
        return s
    for t, v in list(s.variants.items()):
        t2 = norm(s, t)
        if t2 is not t:
            v2 = s.variant(t2)
            if v2 is not None and v2 != v:
                return None
        if v == "None" and t2.op == "vget" and t2.args[0] is metas and any(s.decide(eq(t2.args[1], uidx(x), True)) is True for x in moved):
            return None
    return s


def builder_facts(cx, st, args):
    """The entity under construction was spawned by the builder's creation and cannot be despawned while it is borrowed."""
    ents = T("fld", T("at", fld(args[0], "world")), "entities")
    return st.assume(T("alive", ents, fld(args[0], "entity")))
