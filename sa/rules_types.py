"""Type-level properties of the public interface (C14): programs that break the rules must not type-check, their legal twins must.

Every witness is a pair of client programs that differ in the offending step only.  The deciding step is rustc's own
type and borrow checker on the interface of /repo's current source (metadata only, nothing is linked or run)."""
import concurrent.futures
import os
import subprocess
from .analysis import *

RULES = {}


def rule(*props):
    def d(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return d


PRELUDE = """#![allow(unused, deprecated, static_mut_refs)]
use arche_tape::*;
use arche_tape::world::*;
use arche_tape::entity_builder::EntityBuilder;
use untyped_vec::*;
struct D(u64);
fn used<T>(_: T) {}
fn any<T>(_: &T) {}
fn sends<T: Send>(_: &T) {}
fn syncs<T: Sync>(_: &T) {}
fn clones<T: Clone>(_: &T) {}
fn send_t<T: Send>() {}
fn sync_t<T: Sync>() {}
fn any_t<T>() {}
"""
BORROW = {"E0499", "E0502", "E0505", "E0506", "E0597", "E0716", "E0515", "E0521", "E0382", "E0310", "E0621", "E0700", "E0503", "E0713", "E0373", "lifetime"}
MOVE = {"E0382", "E0505", "E0499"}
AUTO = {"E0277"}
UNSAFE = {"E0133"}
HIDDEN = {"E0603", "E0616", "E0432", "E0433", "E0412", "E0405", "E0425", "E0576", "E0609", "E0599", "E0133"}
MUTAB = {"E0594", "E0596", "E0308"}

SQ = "arche_tape::static_query::StaticQuery::"
DQ = "arche_tape::dyn_query::DynQuery::"
WO = "arche_tape::world::World::"
EBP = "arche_tape::entity_builder::EntityBuilder::"
UVP = "untyped_vec::UntypedVec::"


class W:
    """One witness: a program with a hole, the offending and the legal filling."""

    def __init__(self, name, where, what, bad, good, codes=BORROW):
        self.name, self.where, self.what, self.codes = name, where, what, codes
        self.bad, self.good = bad, good


def fmain(body, sig="w: &mut World, e: EcsId, f: EcsId"):
    return "fn prog(%s) {\n%s\n}\nfn main() {}\n" % (sig, body)


def witnesses(thorough):
    out = []

    def add(name, where, what, bad, good, codes=BORROW, raw=False, sig="w: &mut World, e: EcsId, f: EcsId"):
        if not raw:
            bad, good = fmain(bad, sig), fmain(good, sig)
        out.append(W(name, where, what, bad, good, codes))
    kinds = [("&'static u32", "shared"), ("&'static mut u32", "exclusive")]
    tuples = [("(%s,)" % k, n) for k, n in kinds] + [("(EcsIds, &'static mut u32)", "ids"), ("(&'static u32, &'static mut D)", "two")]
    letters = [8, 16, 32, 64]
    wide = ["&'static mut [u8; %d]" % i for i in range(1, 11)]
    for n in (range(3, 11) if thorough else (3, 10)):
        tuples.append(("(%s)" % ", ".join(wide[:n]), "arity %d" % n))
    for q, n in tuples:
        Q = "let mut q = w.query::<%s>();" % q
        add("get-outlives-query %s" % n, SQ + "get", "a value got from a query is used after the query is gone (%s)" % n,
            Q + " let r = q.get(e); drop(q); used(r);", Q + " let r = q.get(e); used(r); drop(q);")
        add("iter-outlives-query %s" % n, SQ + "iter", "an item of an iterator is used after the query is gone (%s)" % n,
            Q + " let r = q.iter().next(); drop(q); used(r);", Q + " let r = q.iter().next(); used(r); drop(q);")
        add("get-twice %s" % n, SQ + "get", "two values are got through one query at once (%s)" % n,
            Q + " let r = q.get(e); let t = q.get(f); used(r); used(t);", Q + " let r = q.get(e); used(r); let t = q.get(f); used(t);")
        add("iter-twice %s" % n, SQ + "iter", "two iterators of one query are used at once (%s)" % n,
            Q + " let mut i = q.iter(); let mut j = q.iter(); used(i.next()); used(j.next());", Q + " let mut i = q.iter(); used(i.next()); let mut j = q.iter(); used(j.next());")
        add("get-while-iterating %s" % n, SQ + "get", "a value is got while the query is iterated (%s)" % n,
            Q + " let mut i = q.iter(); let r = q.get(e); used(i.next()); used(r);", Q + " let mut i = q.iter(); used(i.next()); let r = q.get(e); used(r);")
        add("items-kept %s" % n, SQ + "iter", "items of an earlier iteration are used during a later one (%s)" % n,
            Q + " let v: Vec<_> = q.iter().collect(); for x in q.iter() { used(x); } used(v);", Q + " let v: Vec<_> = q.iter().collect(); used(v); for x in q.iter() { used(x); }")
        add("iterator-copied %s" % n, SQ + "iter", "an iterator that hands out references can be duplicated (%s)" % n,
            Q + " let i = q.iter(); clones(&i);", Q + " let i = q.iter(); any(&i);", AUTO) if "mut" in q else None
        add("query-outlives-world %s" % n, WO + "query", "a query is used after its world is gone (%s)" % n,
            "let v = World::new(); let mut q = v.query::<%s>(); drop(v); used(q.get(e));" % q, "let v = World::new(); let mut q = v.query::<%s>(); used(q.get(e)); drop(q); drop(v);" % q)
    for k, n in kinds:
        r = "&'L u32" if n == "shared" else "&'L mut u32"
        add("get-lifetime %s" % n, SQ + "get", "a value got through a borrowed query gets the lifetime of the world borrow (%s)" % n,
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>, e: EcsId) -> Option<(%s,)> { q.get(e) }\nfn main() {}" % (k, r.replace("'L", "'a")),
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>, e: EcsId) -> Option<(%s,)> { q.get(e) }\nfn main() {}" % (k, r.replace("'L", "'b")), raw=True)
        add("iter-lifetime %s" % n, SQ + "iter", "items of a borrowed query get the lifetime of the world borrow (%s)" % n,
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>) -> Option<(%s,)> { q.iter().next() }\nfn main() {}" % (k, r.replace("'L", "'a")),
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>) -> Option<(%s,)> { q.iter().next() }\nfn main() {}" % (k, r.replace("'L", "'b")), raw=True)
        add("static-reference %s" % n, SQ + "get", "a value got from a query lives forever (%s)" % n,
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>, e: EcsId) -> Option<(%s,)> { q.get(e) }\nfn main() {}" % (k, r.replace("'L", "'static")),
            "fn g<'a, 'b>(q: &'b mut StaticQuery<'a, (%s,)>, e: EcsId) -> Option<(%s,)> { q.get(e) }\nfn main() {}" % (k, r.replace("'L", "'b")), raw=True)
        add("query-lifetime %s" % n, WO + "query", "a query outlives the borrow of the world it was made from (%s)" % n,
            "fn g<'a>(w: &'a World) -> StaticQuery<'static, (%s,)> { w.query::<(%s,)>() }\nfn main() {}" % (k, k),
            "fn g<'a>(w: &'a World) -> StaticQuery<'a, (%s,)> { w.query::<(%s,)>() }\nfn main() {}" % (k, k), raw=True)
    add("shared-is-shared", SQ + "get", "a component asked for by shared reference can be written",
        "let mut q = w.query::<(&u32,)>(); if let Some((x,)) = q.get(e) { *x = 1; }", "let mut q = w.query::<(&mut u32,)>(); if let Some((x,)) = q.get(e) { *x = 1; }", MUTAB)
    add("shared-is-shared-iter", SQ + "iter", "a component asked for by shared reference can be written",
        "let mut q = w.query::<(&u32,)>(); for (x,) in q.iter() { *x = 1; }", "let mut q = w.query::<(&mut u32,)>(); for (x,) in q.iter() { *x = 1; }", MUTAB)
    # dynamic queries
    DYN = "let mut q = w.query_dynamic([FetchType::Mut(e), FetchType::EcsId]);"
    add("dyn-iter-outlives-query", DQ + "iter", "the iterator of a dynamic query is used after the query is gone",
        DYN + " let mut i = q.iter(); drop(q); used(i.next());", DYN + " let mut i = q.iter(); used(i.next()); drop(q);")
    add("dyn-columns-outlive-query", DQ + "column_iter", "the iterator of a dynamic query is used after the query is gone",
        DYN + " let mut i = q.column_iter(); drop(q); used(i.next());", DYN + " let mut i = q.column_iter(); used(i.next()); drop(q);")
    add("dyn-query-outlives-world", WO + "query_dynamic", "a dynamic query is used after its world is gone",
        "let v = World::new(); let mut q = v.query_dynamic([FetchType::Mut(e)]); drop(v); used(q.iter().next());",
        "let v = World::new(); let mut q = v.query_dynamic([FetchType::Mut(e)]); used(q.iter().next()); drop(q); drop(v);")
    add("dyn-query-lifetime", WO + "query_dynamic", "a dynamic query outlives the borrow of the world it was made from",
        "fn g<'a>(w: &'a World, e: EcsId) -> DynQuery<'static, 1> { w.query_dynamic([FetchType::Mut(e)]) }\nfn main() {}",
        "fn g<'a>(w: &'a World, e: EcsId) -> DynQuery<'a, 1> { w.query_dynamic([FetchType::Mut(e)]) }\nfn main() {}", raw=True)
    # the world cannot change under a query or a builder
    changes = [("spawn", "used(w.spawn().build());"), ("spawn_with_capacity", "used(w.spawn_with_capacity(8).build());"), ("despawn", "w.despawn(e);"),
               ("add_component", "w.add_component(e, 1_u32);"), ("remove_component", "w.remove_component::<u32>(e);"),
               ("add_component_dynamic", "w.add_component_dynamic(e, f);"), ("remove_component_dynamic", "w.remove_component_dynamic(e, f);"),
               ("add_component_dynamic_with_data", "unsafe { w.add_component_dynamic_with_data(e, f, std::ptr::null_mut()); }"),
               ("spawn_with_component_meta", "unsafe { used(w.spawn_with_component_meta(ComponentMeta::unit()).build()); }"),
               ("get_component_mut_dynamic", "used(w.get_component_mut_dynamic(e, f));"),
               ("get_or_create_type_id_ecsid", "used(w.get_or_create_type_id_ecsid::<u32>());")]
    holds = [("a query", "let mut q = w.query::<(&mut u32,)>();", "used(q.get(e));"), ("an item of a query", "let mut q = w.query::<(&u32,)>(); let v: Vec<_> = q.iter().collect();", "used(v);"),
             ("a dynamic query", "let mut q = w.query_dynamic([FetchType::Mut(f)]);", "used(q.iter().next());")]
    for m, call in changes:
        for hn, h, u in holds if thorough else holds[:1] + holds[2:]:
            add("%s under %s" % (m, hn), WO + m, "the world is changed while %s is alive" % hn, "%s %s %s" % (h, call, u), "%s %s drop(q); %s" % (h, u, call))
    for m, call in changes + [("query", "used(w.query::<(&u32,)>());"), ("query_dynamic", "used(w.query_dynamic([FetchType::Mut(f)]));")]:
        add("%s under a builder" % m, WO + ("spawn" if m != "spawn" else m), "the world is used (%s) while an entity is under construction" % m,
            "let b = w.spawn(); %s used(b.build());" % call, "let b = w.spawn(); used(b.build()); %s" % call)
    add("query-moved-world", WO + "query", "the world is moved while a query is alive", "let v = World::new(); let mut q = v.query::<(&u32,)>(); let x = v; used(q.get(e));",
        "let v = World::new(); let mut q = v.query::<(&u32,)>(); used(q.get(e)); drop(q); let x = v;")
    # builders
    add("build-twice", EBP + "build", "one builder builds two entities", "let b = w.spawn().with(1_u32); used(b.build()); used(b.build());", "let b = w.spawn().with(1_u32); used(b.build()); let b = w.spawn(); used(b.build());", MOVE)
    add("build-twice-by-ref", EBP + "build", "one builder builds two entities", "let mut b = w.spawn(); { let r = &mut b; used(r.build()); } used(b.build());", "let mut b = w.spawn(); { let r = &mut b; used(r); } used(b.build());", MOVE | {"E0507"})
    add("with-after-build", EBP + "with", "components are added to a finished entity's builder", "let b = w.spawn(); used(b.build()); used(b.with(1_u32));", "let b = w.spawn(); used(b.with(1_u32).build());", MOVE)
    add("builder-after-with", EBP + "with", "a builder is used again after it was given on", "let b = w.spawn(); let c = b.with(1_u32); used(c.build()); used(b.build());", "let b = w.spawn(); let c = b.with(1_u32); used(c.build());", MOVE)
    add("builder-after-with-dynamic", EBP + "with_dynamic", "a builder is used again after it was given on", "let b = w.spawn(); let c = b.with_dynamic(e); used(c.build()); used(b.build());", "let b = w.spawn(); let c = b.with_dynamic(e); used(c.build());", MOVE)
    add("builder-copied", EBP + "build", "a builder can be duplicated", "let b = w.spawn(); clones(&b); used(b.build());", "let b = w.spawn(); any(&b); used(b.build());", AUTO)
    add("two-builders", WO + "spawn", "two entities are under construction in one world at once", "let b = w.spawn(); let c = w.spawn(); used(b.build()); used(c.build());", "let b = w.spawn(); used(b.build()); let c = w.spawn(); used(c.build());")
    for m, call in (("spawn", "spawn()"), ("spawn_with_capacity", "spawn_with_capacity(8)")):
        add("builder-outlives-world %s" % m, WO + m, "an entity is under construction after its world is gone", "let mut v = World::new(); let b = v.%s; drop(v); used(b.build());" % call, "let mut v = World::new(); let b = v.%s; used(b.build()); drop(v);" % call)
        add("builder-lifetime %s" % m, WO + m, "a builder outlives the borrow of the world", "fn g<'a>(w: &'a mut World) -> EntityBuilder<'static> { w.%s }\nfn main() {}" % call, "fn g<'a>(w: &'a mut World) -> EntityBuilder<'a> { w.%s }\nfn main() {}" % call, raw=True)
    add("builder-needs-exclusive-world", WO + "spawn", "an entity is built through a shared reference to the world", "let v: &World = w; used(v.spawn().build());", "let v: &mut World = w; used(v.spawn().build());", MUTAB)
    for m, call in changes:
        add("%s through a shared reference" % m, WO + m, "the world is changed through a shared reference", "let w: &World = w; " + call, call, MUTAB)
    # components that borrow
    add("borrowing-component builder", EBP + "with", "a component borrows from something that can go away first", "let x = 1_u32; used(w.spawn().with(&x).build());", "static X: u32 = 1; used(w.spawn().with(&X).build());", BORROW)
    add("borrowing-component add", WO + "add_component", "a component borrows from something that can go away first", "let x = 1_u32; w.add_component(e, &x);", "static X: u32 = 1; w.add_component(e, &X);", BORROW)
    # threads
    for t, p in (("World", WO + "new"), ("UntypedVec", UVP + "new_from_raw"), ("Archetype", "arche_tape::world::Archetype"), ("StaticQuery<'static, (&'static u32,)>", WO + "query"),
                 ("StaticQuery<'static, (EcsIds,)>", WO + "query"), ("DynQuery<'static, 1>", WO + "query_dynamic"), ("EntityBuilder<'static>", WO + "spawn")):
        add("send %s" % t, p, "%s can be sent to another thread" % t, "send_t::<%s>();" % t, "any_t::<%s>();" % t, AUTO)
        add("sync %s" % t, p, "%s can be shared between threads" % t, "sync_t::<%s>();" % t, "any_t::<%s>();" % t, AUTO)
    for q in ("(&u32,)", "(&mut u32,)"):
        add("send iterator %s" % q, SQ + "iter", "the iterator of a query can be sent to another thread", "let mut q = w.query::<%s>(); let i = q.iter(); sends(&i);" % q, "let mut q = w.query::<%s>(); let i = q.iter(); any(&i);" % q, AUTO)
    add("send dyn iterator", DQ + "iter", "the iterator of a dynamic query can be sent to another thread", DYN + " let i = q.iter(); sends(&i);", DYN + " let i = q.iter(); any(&i);", AUTO)
    # what stays behind `unsafe`
    v = "let mut v = unsafe { UntypedVec::new_from_raw(TypeInfo::new(std::alloc::Layout::new::<u32>(), None)) };"
    for m, call, p in (("as_slice", "used(v.as_slice::<u32>().len());", UVP), ("as_slice_mut", "used(v.as_slice_mut::<u32>().len());", UVP),
                       ("push_raw", "v.push_raw(std::ptr::null_mut());", UVP), ("new_from_raw", "used(UntypedVec::new_from_raw(TypeInfo::new(std::alloc::Layout::new::<u32>(), None)));", UVP),
                       ("swap_move_element_to_other_vec", "let mut o = UntypedVec::new_from_untyped_vec(&mut v); v.swap_move_element_to_other_vec(&mut o, 0);", UVP),
                       ("add_component_dynamic_with_data", "w.add_component_dynamic_with_data(e, f, std::ptr::null_mut());", WO),
                       ("spawn_with_component_meta", "used(w.spawn_with_component_meta(ComponentMeta::unit()).build());", WO),
                       ("with_dynamic_with_data", "used(w.spawn().with_dynamic_with_data(std::ptr::null_mut(), e).build());", EBP)):
        add("unsafe %s" % m, p + m, "values of arbitrary types can be read or stored by safe code", v + call, v + "unsafe { %s }" % call, UNSAFE)
    for n, call, p in (("cast_ptr", "used(<&'static u32 as arche_tape::static_query::QueryParam>::cast_ptr(4 as *mut u8));", "arche_tape::static_query::QueryParam::cast_ptr"),
                       ("cast_ptr through the trait of a query", "fn h<'a, Q: arche_tape::static_query::QueryParam<'a>>(x: *mut u8) -> <Q as arche_tape::static_query::QueryParam<'a>>::Returns { Q::cast_ptr(x) }", "arche_tape::static_query::QueryParam::cast_ptr"),
                       ("archetypes", "let a = &mut w.archetypes; a.clear();", WO + "archetypes"),
                       ("entities", "let a = &mut w.entities; a.spawn();", WO + "entities")):
        add("internals %s" % n, p, "safe code reaches the pointers and tables queries rely on (%s)" % n, call, "any(w);", HIDDEN)
    sl = "let s = unsafe { v.as_slice::<u32>() };"
    sm = "let s = unsafe { v.as_slice_mut::<u32>() };"
    for n, s, p in (("as_slice", sl, UVP + "as_slice"), ("as_slice_mut", sm, UVP + "as_slice_mut")):
        add("slice-kept %s" % n, p, "a slice of a container is used after the container changed", v + s + " v.pop(); used(s.len());", v + s + " used(s.len()); v.pop();")
        add("slice-outlives %s" % n, p, "a slice of a container is used after the container is gone", v + s + " drop(v); used(s.len());", v + s + " used(s.len()); drop(v);")
    add("slices-overlap", UVP + "as_slice_mut", "two exclusive slices of one container exist at once", v + sm + " let t = unsafe { v.as_slice_mut::<u32>() }; used(s.len()); used(t.len());", v + sm + " used(s.len()); let t = unsafe { v.as_slice_mut::<u32>() }; used(t.len());")
    add("container-get-mut", UVP + "get_mut_raw", "an element is got for writing through a shared reference", v + " let r = &v; used(r.get_mut_raw(0));", v + " let r = &mut v; used(r.get_mut_raw(0));", MUTAB)
    return out


ORDINARY = [
    ("queries", """fn prog(w: &mut World, e: EcsId) {
  { let mut q = w.query::<(EcsIds, &u32, &mut D)>(); for (id, a, b) in q.iter() { b.0 += *a as u64; used(id); }
    if let Some((_, a, b)) = q.get(e) { b.0 = *a as u64; } }
  { let mut p = w.query::<(&u32,)>(); let mut q = w.query::<(&u32,)>(); let a: u32 = p.iter().map(|(x,)| *x).sum(); let b: Vec<&u32> = q.iter().map(|(x,)| x).collect(); used((a, b)); }
  { let mut q = w.query::<(&mut u32,)>(); let mut v: Vec<&mut u32> = q.iter().map(|(x,)| x).collect(); for x in v.iter_mut() { **x += 1; } }
  let mut q = w.query_dynamic([FetchType::Mut(e), FetchType::Immut(e), FetchType::EcsId]);
  for [a, b, c] in q.iter() { used((a, b, c)); }
  for c in q.column_iter() { used(c); }
}
fn shared(a: &World, b: &World) { let mut q = a.query::<(&u32,)>(); let mut p = b.query::<(&mut D,)>(); used(q.iter().count() + p.iter().count()); }
fn helper<'w>(w: &'w World) -> StaticQuery<'w, (&'static mut u32,)> { w.query::<(&mut u32,)>() }
fn main() {}
"""),
    ("changes", """fn prog(w: &mut World) {
  let e = w.spawn().with(1_u32).with(D(2)).build();
  let m = w.spawn().build();
  let f = w.spawn_with_capacity(32).with_dynamic(m).with("x".to_string()).build();
  let g = spawn!(&mut w2(), 1_u32, 2_u64);
  w.add_component(e, 1_u64); w.remove_component::<u64>(e); used(w.has_component::<u32>(e));
  w.add_component_dynamic(e, m); w.remove_component_dynamic(e, m); used(w.is_alive(e)); used(w.despawn(f)); used((e, g));
}
fn main() {}
""".replace("let g = spawn!(&mut w2(), 1_u32, 2_u64);", "let mut o = World::new(); let g = spawn!(&mut o, 1_u32, 2_u64);")),
    ("arities", "fn prog(w: &World) {\n" + "\n".join("  { let mut q = w.query::<(%s,)>(); used(q.iter().count()); }" % ", ".join("&[u8; %d]" % i for i in range(1, n + 1)) for n in range(1, 11)) + "\n}\nfn main() {}\n"),
    ("containers", """fn prog() {
  let mut v = unsafe { UntypedVec::new_from_raw(TypeInfo::new(std::alloc::Layout::new::<u32>(), None)) };
  let mut x = 3_u32; unsafe { v.push_raw(&mut x as *mut u32 as *mut std::mem::MaybeUninit<u8>); }
  used(v.len()); used(v.get_raw(0)); used(v.get_mut_raw(0)); used(v.is_empty()); used(v.pop()); v.swap_remove(0);
  let mut o = UntypedVec::new_from_untyped_vec(&mut v); unsafe { v.swap_move_element_to_other_vec(&mut o, 0); used(o.as_slice::<u32>()[0]); }
}
fn main() {}
"""),
]


def find_meta(an):
    """Metadata of the two crates as compiled from /repo for this run."""
    out = {}
    for base, _, files in os.walk(os.path.join(an.tmp, "t")):
        for f in files:
            for c in ("untyped_vec", "arche_tape"):
                if f.startswith("lib" + c) and f.endswith(".rmeta"):
                    out[c] = os.path.join(base, f)
    return out


def compile_(an, metas, src, n):
    d = os.path.join(an.tmp, "wit")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "w%d.rs" % n)
    with open(p, "w") as f:
        f.write(PRELUDE + src)
    cmd = ["rustc", "--edition=2021", "--crate-type=bin", "--emit=metadata", "--error-format=json", "--cap-lints=allow", "-o", os.path.join(d, "w%d.rmeta" % n), p]
    for c, m in metas.items():
        cmd += ["--extern", "%s=%s" % (c, m), "-L", "dependency=" + os.path.dirname(m)]
    r = subprocess.run(cmd, env=an.env, capture_output=True, text=True, timeout=300)
    codes = set()
    msgs = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error":
            c = (m.get("code") or {}).get("code")
            msg = m.get("message", "")
            if c:
                codes.add(c)
            elif "lifetime may not live long enough" in msg or "does not outlive" in msg or "borrowed data escapes" in msg:
                codes.add("lifetime")
            elif not msg.startswith(("aborting", "one or more lifetime errors")):
                codes.add("other")
            msgs.append(msg)
    return r.returncode == 0, codes, msgs


@rule("C14")
def witness(an, rep):
    metas = find_meta(an)
    if len(metas) != 2:
        rep.und("witness", "arche_tape", "metadata of the crates not found")
        return
    ws = witnesses(an.thorough)
    jobs = []
    for w in ws:
        jobs.append((w, "bad", w.bad))
        jobs.append((w, "good", w.good))
    for n, src in ORDINARY:
        jobs.append((n, "ordinary", src))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda x: compile_(an, metas, x[1][2], x[0]), enumerate(jobs)))
    got = {}
    for (w, k, src), r in zip(jobs, res):
        got[(id(w) if isinstance(w, W) else w, k)] = r
    rep.paths += len(jobs)
    for w in ws:
        rep.functions.add(w.where)
        b, g = got[(id(w), "bad")], got[(id(w), "good")]
        borrowy = BORROW | AUTO | MUTAB | UNSAFE | {"E0507"} | w.codes
        if b[0]:
            rep.bad("rejected", w.where, "a program that must not compile does: %s [witness %s]" % (w.what, w.name))
        elif b[1] & w.codes and not b[1] - borrowy:
            # rejected for the reason meant: the twin differs in the offending step only
            if g[0]:
                rep.ok("rejected", w.where)
                rep.ok("twin", w.where)
            elif g[1] and g[1] <= BORROW:
                rep.bad("twin", w.where, "an ordinary use does not compile: the legal twin of witness %s (%s)" % (w.name, "; ".join(g[2])[:120]))
            else:
                rep.und("twin", w.where, "the legal twin of witness %s does not compile: %s" % (w.name, "; ".join(g[2])[:160]))
        else:
            rep.und("rejected", w.where, "witness %s is rejected for another reason: %s" % (w.name, "; ".join(b[2])[:160]))
    for n, src in ORDINARY:
        g = got[(n, "ordinary")]
        if g[0]:
            rep.ok("ordinary", "arche_tape (%s)" % n)
        elif g[1] and g[1] <= BORROW | AUTO | MUTAB:
            rep.bad("ordinary", "arche_tape (%s)" % n, "ordinary uses do not compile: %s" % "; ".join(g[2])[:200])
        else:
            rep.und("ordinary", "arche_tape (%s)" % n, "ordinary uses do not compile: %s" % "; ".join(g[2])[:200])
