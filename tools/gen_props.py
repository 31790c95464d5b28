"""Writes /verif/properties.jsonl from one table (kept in step by hand with DESIGN.md and MANIFEST.json)."""
import json, os
W="arche_tape/src/world.rs"; E="arche_tape/src/entities.rs"; B="arche_tape/src/entity_builder.rs"
S="arche_tape/src/static_query.rs"; D="arche_tape/src/dyn_query.rs"; BI="arche_tape/src/bitset_iterator.rs"
AV="arche_tape/src/array_vec.rs"; L="arche_tape/src/lib.rs"; U="untyped_vec/src/lib.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H=["histories","inputs"]
p("C01","Entity handles are alive exactly from their spawn to their despawn",
  "A handle returned by spawning is reported alive until exactly that handle is despawned and never again afterwards, even when its slot is reused: a reused slot is handed out with the next (wrapping) generation. Entities alive at the same time never share a slot. Despawning a handle that is not alive returns false and changes nothing.",
  H,"every sequence of spawn / despawn / is_alive on every handle ever produced, including stale ones",
  "The tests run a handful of fixed spawn/despawn sequences of length at most five; the claim is about every history and every stale handle.",
  [E,W],[("generation bump on reuse and liveness flag","Entities::spawn"),("free list push guarded by liveness","Entities::despawn"),("flag and generation compared","Entities::is_alive"),("entity id released together with its row","World::despawn")],
  [("generations","liveness flag and generation per slot",E),("despawned","free slots",E)],["World::is_alive","World::despawn","World::spawn().build()"])
p("C02","Handle equality, ordering and hashing agree and separate all handles",
  "Two handles are equal exactly when both their slot index and their generation are equal. Their ordering is a total order on (slot, generation) pairs that reports Equal for exactly the equal handles, equal handles hash equally, and the id and type hash maps used by the world feed the whole key to the hasher.",
  ["inputs"],"all pairs of 64-bit handles",
  "Tests compare a few small handles; generations above 0 on distinct slots and large indices are never compared.",
  [E,L],[("as_u64 packs generation and index without overlap","EcsId::as_u64"),("PartialEq / Hash / Ord of EcsId","entities.rs"),("pass-through hasher","utils::TypeIdHasher")],[],["EcsId == / < / HashMap keys"])
p("C03","Dead handles never reach component data",
  "An operation given an entity or component handle that is not alive neither reads nor changes any entity's components, location or metadata: it reports absence, returns without effect, or panics before any change. This holds for every public operation taking a handle, including when the handle's slot has since been reused by another entity.",
  H,"every public operation, every stale handle, every history that reused the slot",
  "Only despawn and get_entity_meta are tried on a dead handle, never with a reused slot.",
  [W,S,D,B],[("liveness checked before metadata is used","World::*"),("metadata lookup guarded by liveness","World::get_entity_meta / set_entity_meta"),("get checks liveness","StaticQuery::get")],[("ecs_id_meta","location and component metadata per slot, not keyed by generation",W)],["World::get_component_mut_dynamic","StaticQuery::get","World::has_component"])
p("C04","An entity's recorded location is always its own row",
  "After any sequence of spawns, despawns, component additions and removals, the recorded location of every live entity is the row that holds that entity. In particular the entity moved into the gap left by a despawn or by a component change, and the entity that changed its components, both end up with their new location recorded, and a despawned entity has none.",
  H,"every history of spawn / despawn / add / remove, in particular those that remove a row that is not the last",
  "Tests despawn one entity out of three and add/remove on ten; which row is removed relative to the last one, in which archetype, is sampled in two cases.",
  [W,B],[("swapped entity's index rewritten","Archetype::despawn"),("swapped entity's index rewritten, own location set","World::add_component_dynamic_with_data"),("same","World::remove_component_dynamic"),("location recorded at build","EntityBuilder::build")],
  [("instance_meta","archetype and row of an entity",W),("entities","entity per row",W)],["StaticQuery::get","World::get_component_mut_dynamic"])
p("C05","Every row holds exactly one value of each of its components",
  "In every storage group the list of entities and every component column have the same length after each completed operation, and row i of each column belongs to entity i. Every operation that adds or removes a row does so at the same position in the entity list and in every column, leaving no column out and touching none twice.",
  H,"every history of spawn / despawn / add / remove and any number of components per entity, including none and zero-sized ones",
  "Tests use at most three components and check lengths in four fixed scenarios.",
  [W,B],[("row removal loop over all columns","Archetype::despawn"),("row transfer over all columns","World::add_component_dynamic_with_data / remove_component_dynamic"),("row insertion","EntityBuilder::build / create_archetype")],
  [("entities","entity per row",W),("component_storages","columns",W)],["iteration over a query","StaticQuery::get"])
p("C06","Changing an entity's components preserves all its other values",
  "When a component is added to or removed from an entity, every other component value of that entity is moved unchanged to the column of the same component. The added value ends up in the column of the added component, and the value destroyed by a removal is the removed component's value of that very entity.",
  H,"every set of components and every position of the changed component id in the sort order",
  "Tests add or remove one component on entities with one other component; the changed id is always the largest.",
  [W],[("columns sorted by id and zipped while skipping the changed id","World::add_component_dynamic_with_data / remove_component_dynamic")],[("component_storages","columns sorted by component id",W)],["StaticQuery::get after add_component / remove_component"])
p("C07","A storage group has exactly one correctly typed column per component id",
  "Every storage group has exactly one column for each component id of its combination, sorted by id, created with the layout and destructor of that very component. The id list, the columns and the id-to-column lookup of a group always agree.",
  ["histories","configurations"],"every order in which components are supplied or added and every source group a new one is derived from",
  "Component ids in the tests are nearly always supplied in ascending order with one type family; derived groups are checked by column count only.",
  [W,B],[("constructors sort and index the columns","Archetype::from_archetype / from_archetype_with / from_archetype_without"),("constructor used at build","EntityBuilder::create_archetype")],[("comp_lookup","id to column",W),("comp_ids","ids in column order",W)],["query results","drop of the world"])
p("C08","Entities are stored with exactly the entities of the same component set",
  "The storage group chosen for a spawn, an addition or a removal has precisely the required set of components, never a subset, a superset or a different set. A group for a combination that already exists is reused, not created a second time.",
  H,"every set of existing groups and every requested combination",
  "Tests have at most three groups, and the requested combination is always the only candidate or a strict prefix.",
  [W,B],[("intersection of per-component membership sets filtered by component count","World::find_archetype_dynamic / _plus_id / _minus_id"),("found group used, created only when absent","EntityBuilder::build, World::add_component_dynamic_with_data, World::remove_component_dynamic")],[("archetype_bitset","groups containing a component",W)],["World::spawn().build()","World::add_component","World::remove_component"])
p("C09","Every storage group is registered for lookup and queries when it is created",
  "When a storage group comes into existence it is registered, under its own position, with each of its component ids and with the list of all groups, and each of its components has a lock from then on. No group is registered for a component it does not contain and no existing registration is changed.",
  H,"every way a group can come into existence (spawn, addition, removal) and any number of groups, also more than a machine word of them",
  "No test creates more than four groups; groups created by removal are never queried.",
  [W,B,BI],[("set_bit per id, push_bit for all groups, push of the group","World::add_component_dynamic_with_data, World::remove_component_dynamic, EntityBuilder::build"),("lock created on first use","same")],[("archetype_bitset","groups containing a component",W),("entities_bitvec","all groups",W),("lock_lookup / locks","one lock per component",W)],["queries"])
p("C10","Remembered component transitions lead to the right group",
  "The group remembered for adding or removing a component to or from a given group is always the group with exactly that change applied, however many transitions have been remembered and however old they are. Looking up a transition that was never remembered reports none.",
  H,"every history of additions and removals, in particular more distinct transitions than the small cache holds",
  "No test performs more than two distinct transitions from the same group, so the small cache (4 entries) never overflows.",
  [W,AV],[("cache filled only with the target just found or created","World::add_component_dynamic_with_data / remove_component_dynamic"),("lookup compares ids","AddRemoveCache::lookup_id"),("bounded most-recent-first buffer","ArrayVec")],[("add_remove_cache","target group per component id",W)],["World::add_component / remove_component"])
p("C11","A query yields each matching entity exactly once and nothing else",
  "Iterating a typed or dynamic query visits every live entity that has all requested components exactly once, and no other. If a requested component is unknown to the world or was never attached to any entity, the query yields nothing and does not panic; looking up one entity yields nothing when it lacks a requested component.",
  ["inputs","histories"],"every tuple of requested components (all arities), every world",
  "Tests query up to three components over at most two groups; arities 4 to 10 and more than 64 groups are never exercised.",
  [S,D,W,BI],[("intersection over the membership set of each requested component, bounded by the shortest","StaticQuery::iter, DynQuery::iter / column_iter"),("row counter equals group length","StaticQueryIter::next, IntraArchetypeIter::next"),("absent component yields none","StaticQuery::new, DynQuery::new")],[("entities_bitvec","all groups",W)],["StaticQuery::iter / get","DynQuery::iter / column_iter"])
p("C12","Each item of a query refers to the entity's own values in request order",
  "The n-th element of every item produced by a query (iteration or single lookup, typed or dynamic) is the item entity's own value of the n-th requested component, or its handle where handles were requested; so is the value found by looking up one component of one entity by id. Advancing to the next row moves every element by exactly one value of its own type.",
  ["inputs","histories"],"every tuple of requested components (all arities), every row",
  "Tests read at most three columns in groups of three rows, in ascending id order.",
  [S,D],[("column found by the requested id","QueryParam::create_ptr, FetchType::make_create_ptr_fn"),("stride of one value","QueryParam::offset_ptr, IntraArchetypeIter::next"),("element order kept","impl_query_tuple!")],[],["StaticQuery::iter / get","DynQuery::iter / column_iter"])
p("C13","A live query holds the lock of every component it can access",
  "While a query is alive it holds, for each requested component, that component's own lock: exclusively if the component was requested mutably and shared otherwise, acquired before any access and released only when the query is dropped. So no two live queries can access the same component if one of them can write it.",
  ["programs","schedules"],"every pair of queries alive at the same time, every tuple of requested components",
  "Tests never hold two queries at a time, so lock modes, lock identity and guard lifetime are unobserved.",
  [S,D,W],[("guard per requested component stored in the query","StaticQuery::new, DynQuery::new"),("one lock per component id","World::lock_lookup / locks")],[("_guards","guards held by the query",S)],["World::query","World::query_dynamic"])
p("C14","References from queries cannot outlive or bypass their borrow",
  "No safe program compiles that keeps a component reference beyond the query it came from, obtains two overlapping references through one query at once, changes the world while a query on it or an entity under construction is alive, builds the same entity twice, sends or shares a world, a query or a component container across threads, stores a component that borrows shorter-lived data, or reads or stores raw untyped values without writing `unsafe`. The ordinary uses of these interfaces do compile.",
  ["programs"],"every safe client program",
  "A test can only contain programs that compile; that the offending ones do not compile is never checked.",
  [S,D,W,B,U],[("lifetimes in signatures","StaticQuery::get / iter, World::query, World::spawn"),("raw pointers keep the types !Send and !Sync","UntypedVec, World"),("build consumes the builder","EntityBuilder::build")],[],["compilation of client programs"])
p("C15","The untyped container never accesses memory outside its initialised elements",
  "Every read, write and move of the untyped container stays inside its allocation and, for reads, inside its initialised elements, for every element size including zero and every alignment. Allocation, growth and release always use the size and alignment the memory was actually allocated with, out-of-range indices are reported or rejected, and the length changes by exactly one element per insertion or removal.",
  ["inputs","histories"],"every element layout and every sequence of container operations",
  "Tests use u32 and one 16-byte struct with at most five elements; zero-sized and over-aligned elements never.",
  [U],[("capacity check before the write, growth","UntypedVec::push_raw / realloc"),("bounds checks","UntypedVec::get_raw / get_mut_raw / swap_remove / swap_move_element_to_other_vec"),("matching layout on release","UntypedVec::drop")],[("data / cap / len","allocation, its size and the used part, in bytes",U)],["UntypedVec API"])
p("C16","Every stored component value is dropped exactly once",
  "A component value handed to the world is dropped exactly once: when it is removed, when its entity is despawned, or when the world is dropped; zero-sized values included. Moving it between groups or growing a container never drops or duplicates it, and the destructor that runs is that of the value's own type.",
  ["inputs","histories"],"every component type and every history",
  "Three tests look at a drop flag of the container; none looks at drops through the world, and none uses a zero-sized type with a destructor.",
  [U,W,B],[("destructor called on the slot given up","UntypedVec::pop / swap_remove / drop"),("moved out without drop","UntypedVec::swap_move_element_to_other_vec"),("caller's copy forgotten","World::add_component, EntityBuilder::with"),("destructor recorded per component","ComponentMeta::from_generic")],[],["Drop of user component types"])
p("C17","The entity builder's staging memory is used within its bounds and released once",
  "All component bytes staged by an entity builder are written inside its buffer and unstaged from exactly the offsets they were written to, in the order supplied, whatever the number and sizes of components. The buffer is always grown and released with the size it was allocated with, is owned by exactly one builder or by the world at a time, and is released exactly once.",
  ["inputs","histories"],"every sequence of builders, component sizes and initial capacities",
  "Tests build entities with up to three components and check capacities 0 and 32 only for not panicking.",
  [B,W],[("grow before write","EntityBuilder::with_dynamic_with_data / realloc"),("same sizes walked at build","EntityBuilder::build / create_archetype"),("buffer handed to and taken from the world","EntityBuilder::drop / new_from_world_cache, World::drop")],[("data / cap / len","staging buffer",B),("entity_builder_reuse","buffer kept for the next builder",W)],["World::spawn / spawn_with_capacity"])
p("C18","Each component type has one live id with that type's layout and destructor",
  "For a given world each Rust type used as a component corresponds to one component id, the same for spawning, adding, removing, testing and querying, and distinct types have distinct ids. That id is alive whenever it is used and carries the layout and the destructor of exactly that type.",
  H,"every set of component types and every history, including ones that despawn an unused component id",
  "Tests use distinct types in isolation and never compare the ids or layouts recorded for them.",
  [W,B,S],[("type to id map","World::get_or_create_type_id_ecsid"),("layout and destructor","ComponentMeta::from_generic"),("typed API resolves the id through the same map","World::add_component / remove_component / has_component, EntityBuilder::with, QueryParam::fetch_type")],[("type_id_to_ecs_id","component id per type",W)],["typed World API"])
p("C19","Bit sets report exactly the bits set and their iteration exactly the common ones",
  "Setting a bit changes that bit only and extends the set to include it, reading returns the value last set or none beyond the length. Iterating several sets yields, in ascending order and each once, exactly the positions below the length limit whose bit is set in every (mapped) set, and keeps reporting the end once it has been reached.",
  ["inputs"],"all bit patterns, positions across word boundaries, any number of sets of any lengths",
  "Tests use sets of at most two words and three sets with hand-picked patterns.",
  [BI],[("word and bit index","Bitvec::set_bit / get_bit / push_bit"),("word-wise intersection and bit scan","BitsetIterator::next"),("set per component slot","Bitsetsss")],[("data / len","words and length in bits",BI)],["queries over many groups"])
p("C20","Invalid requests are rejected before anything is changed",
  "Adding a component the entity already has, removing one it does not have, giving the same component twice to one new entity, or using an id that expects data as a dataless component is rejected by a panic before any existing entity, row, column or location is changed. Valid requests are not rejected.",
  H,"every invalid request in every world state",
  "No test issues any of these requests.",
  [W,B],[("presence checked before the move","World::add_component_dynamic_with_data / remove_component_dynamic"),("size checked","World::add_component_dynamic, EntityBuilder::with_dynamic"),("duplicates rejected","EntityBuilder::build")],[],["panics of the World API"])
p("C21","An id in use as a component is never released",
  "Despawning an entity that is in use as a component of any storage group never leaves a group whose component id is dead: the component is removed everywhere, or the despawn is refused before anything has changed. Entities not used as components are not affected by this rule.",
  H,"every world and every entity used as a component, in any group, first, last or empty",
  "The only test of it returns before doing anything.",
  [W],[("all groups searched for the id before the despawn","World::despawn")],[],["World::despawn"])
p("C22","A panicking destructor never leads to a second drop or a read of a dropped value",
  "If the destructor of a component value panics, the container and the world it was removed from no longer treat that value as present, so it is never dropped again or read. Rows, columns and locations are consistent at every point where a user's destructor can run.",
  ["fault_sequences","histories"],"every point at which user destructors run and any of them panicking",
  "No test has a panicking destructor.",
  [U,W],[("length reduced before the destructor runs","UntypedVec::pop"),("order of bookkeeping and destructor calls","Archetype::despawn, World::remove_component_dynamic")],[],["catch_unwind around World operations"])
p("C23","The world behaves like a map from entity to component values",
  "For every history of operations, the components and values observable through lookups and queries equal those of a plain map from entity to component values to which the same operations were applied.",
  H,"every history of operations with every component value",
  "Tests sample a dozen short histories.",
  [W,B,S,D,U],[("all of the above","arche_tape, untyped_vec")],[],["whole public API"])
p("C24","Conflicting requests fail instead of hanging",
  "Requesting access that conflicts with a query already alive on the same thread, or with itself (the same component twice, once mutably), ends in an error or a panic and never blocks forever.",
  ["programs","schedules"],"every pair of conflicting requests on one thread",
  "No test makes conflicting requests; one that did would hang.",
  [S,D],[("blocking lock acquisition","StaticQuery::new, DynQuery::new")],[],["World::query / query_dynamic"])
p("C25","The fixed-capacity vector exposes exactly the values it holds",
  "The fixed-capacity vector (ArrayVec) is a sequence of at most LEN values: push appends or hands an error back when every slot is taken, push_start puts the value in front and drops the last one only when every slot is taken, pop returns the last value, and indices, slices and the length expose exactly the slots that hold a value. Dropping it drops each held value once, and no slot outside the array is ever read or written.",
  ["inputs","histories"],"every capacity, fill level, element type and sequence of operations",
  "Tests use one small capacity and never fill, overflow or index past the end systematically.",
  [AV],[("insertion at the front shifts within the capacity","ArrayVec::push_start"),("bounds by length","ArrayVec::get / get_mut / as_slice / as_slice_mut"),("teardown","ArrayVec::drop")],[("array / len","slots and number of held values",AV)],["Archetype::add_remove_cache"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
