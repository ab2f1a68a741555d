#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    print(json.dumps({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=n,meaning=m,where=w) for n,m,w in state],
        "mechanism":[dict(name=n,where=w) for n,w in mech],"observe_at":list(observe),"hook_needed":hook}}))
CS="src/component/component_sparse_set.rs"; CST="src/component/component_storage.rs"; SET="src/component/component_set.rs"
W="src/world/mod.rs"; G="src/component/group.rs"; GI="src/component/group_info.rs"; GL="src/component/group_layout.rs"
EA="src/entity/entity_allocator.rs"; ES="src/entity/entity_storage.rs"; ESS="src/entity/entity_sparse_set.rs"; SV="src/entity/sparse_vec.rs"
Q="src/query/mod.rs"; QA="src/query/query_all.rs"; QO="src/query/query_one.rs"; QP="src/query/query_part.rs"; V="src/component/view.rs"

P("C01","Entities hold exactly the component values last given to them",
  "After any history of creating, bulk-creating, inserting, removing, deleting and destroying, every live entity holds exactly the components that were given to it and not since taken away, each with the value most recently written, and no other entity's data changes. Each operation's return value (the created entity, whether the entity existed, the removed values) agrees with that history. Operations on handles that are not alive change nothing.",
  ["histories","inputs"],"every finite sequence of world operations, over every registered set of components, every group layout and every population size",
  "The CRUD tests walk one fixed 5-step script on one entity with two ungrouped components; swap-removal, group reordering and storage growth interact only in longer histories over several entities.",
  [W,SET,CST,CS,G],[("sparse-set insert/remove with swap-removal",CS),("group/ungroup reordering around every change",G),("per-tuple insert/extend/remove/delete",SET)],
  [("sparse/entities/components","parallel arrays mapping entity to value",CS)],["World::query_one","World::borrow","return values"])
P("C02","Entity handles are unique, and a destroyed entity never comes back",
  "Until the world is reset, every handle the world gives out differs from all handles it gave out before. A handle is alive from the moment its creation takes effect until it is destroyed or the world is cleared, and never again afterwards; the set of entities the world lists is exactly the set of alive handles, each once.",
  ["histories"],"every finite sequence of create, bulk create, deferred create, maintain, destroy and clear, including index reuse and destroy/maintain in any order",
  "The entity test creates two entities and destroys one; it never reuses an index, never calls maintain, and never looks at a stale handle after its index is reused.",
  [EA,ES,ESS,SV,W],[("versioned indexes and the recycling queue",EA),("version-checked sparse slots",SV),("liveness set",ESS)],
  [("recycled / next index","handles free to be issued",EA)],["World::contains_entity","World::entities","World::is_empty"])
P("C03","Deferred entity creation is safe from any number of threads",
  "Entities created through a shared reference, by any number of threads in any interleaving, all get distinct handles that are not yet alive; the next maintain makes exactly those handles alive, except that clearing or resetting the world first discards them. Creating or destroying other entities between the deferred creation and the maintain neither loses, duplicates, revives nor prematurely activates any of them.",
  ["schedules","histories"],"every interleaving (and every relaxed-memory outcome) of concurrent deferred creations, from every allocator state, followed by every short sequence of exclusive operations",
  "No test calls create_atomic or maintain at all, and a test runs one schedule.",
  [EA,ES,W],[("compare-exchange loops on the recycled counter and on the next index",EA),("maintain drains the reserved handles",EA)],
  [("recycled_since_maintain, next_index_to_allocate","shared counters raced on by threads",EA)],["World::create_atomic","World::maintain","World::contains_entity"])
P("C04","Queries return exactly the matching entities, each once, with their data",
  "For every query built from required, mutable, optional, included and excluded components, iterating it visits every live entity that has all required and included components and none of the excluded ones exactly once, and no other entity, and each item refers to that entity's own data, so that writes through mutable items land there. Looking up a single live entity with the same query agrees with iterating it, and a handle that is not alive never matches a query that requires a component.",
  ["programs","histories"],"every query shape over every reachable world state and group layout",
  "The iterator tests run five queries on one three-entity world with nested subsets; no optional or mutable parts, no data values, no single-entity lookups with filters, no removals beforehand.",
  [Q,QA,QO,QP,"src/query/iter/mod.rs","src/query/iter/sparse_iter.rs","src/query/iter/dense_iter.rs",CST],
  [("dense range selection",CST),("sparse filtering over the smallest view",QA),("per-part item access",QP)],[],["QueryAll::iter","QueryAll::for_each","QueryOne::get","QueryOne::contains"])
P("C05","Group layouts never change what the world means",
  "Under any two group layouts, the same history gives the same operation results, the same entities and the same query results up to order. Setting a new layout on a populated world at any point keeps every entity, every component value and every registered component type.",
  ["configurations","histories"],"every valid layout over the registered components, every history, and every point at which the layout is changed",
  "Two tests use one grouped and one ungrouped world with the same three creations; layouts are never changed on a populated world, and entities holding only part of a group never meet an excluding query.",
  [CST,G,GI,GL,QA,W],[("relayout extracts and regroups storages",CST),("group range selection for include and exclude queries",CST),("group masks",  "src/component/group_mask.rs")],
  [("group len","how many leading entries of the storages are grouped",G)],["World::set_layout","QueryAll::iter","QueryAll::slice"])
P("C06","Grouped queries are dense, and their slices are exact and aligned",
  "A query whose required and included components are exactly those of one group is iterated densely and can be sliced; when a query is sliced, the slices of all its parts have the same length, position i of every slice belongs to the same entity, and together they contain exactly the entities that the query matches, in iteration order. The same holds for slices of a group's entities that lack the component that a larger nested group adds.",
  ["histories","configurations"],"every history over every layout of nested groups, and every query that coincides with a group or with the difference of two nested groups",
  "No test calls slice, and dense iteration is only tested right after three creations.",
  [G,CST,QA,QP,GI],[("grouped prefix kept by swapping in group/ungroup",G),("range arithmetic of nested groups",CST),("slicing of each part",QP)],[("Group::len","grouped prefix length",G)],["QueryAll::slice","Iter::is_dense"])
P("C07","Compatible groups are accepted in any order, incompatible ones are refused",
  "A set of component groups in which any two groups sharing a component are nested in one another, and no group contains two disjoint ones, is accepted in whatever order the groups are added, up to 16 components in a group and 64 groups, and every one of them then works as a group. Any other set is refused with a panic when the offending group is added, and the groups accepted before stay as they were; repeated components and repeated groups change nothing.",
  ["configurations"],"every sequence of groups over a component universe, and every arity and group count up to the documented maxima",
  "Only one increasing chain of three groups is ever built in tests.",
  [GL,CST,"src/component/group_mask.rs","src/component/storage_mask.rs","src/world/builder.rs"],[("family insertion by subset and superset checks",GL),("mask construction",  "src/component/group_mask.rs")],[("families/arities","chains of nested groups",GL)],["GroupLayout::add_group_dyn","World::new","QueryAll::slice"])
P("C08","Every component value is dropped exactly once, and memory stays sound",
  "Every component value handed to the world is either returned to the caller or dropped by the world, exactly once and no later than the world itself; values that are moved, swapped or regrouped are never duplicated or lost. No history reads or writes outside storage, frees memory twice or with a wrong layout, or leaks memory, for components of any size and alignment including zero-sized and over-aligned ones.",
  ["histories","inputs"],"every history of world operations over component types of every shape, including storage growth and relayout",
  "The tests use Copy components only, so drops, leaks and duplicated values are invisible to them.",
  [CS,CST,SET],[("type-erased storage with manual allocation",CS),("drop, delete, clear and grow through a vtable",CS)],[("entities/components/len/cap","manually managed buffers",CS)],["component Drop","global allocator"])
P("C09","A panicking component destructor never corrupts component storage",
  "If a component's destructor panics during any operation that drops components, then no component value is ever dropped a second time, and no dropped value is ever visible through the world afterwards. The world stays safe to use and to drop, and clearing it brings it back to a correct empty world.",
  ["fault_sequences"],"every operation that drops components, in every reachable state, with the panic at every one of the destructor calls it makes",
  "No test has a component with a destructor, let alone one that panics.",
  [CS,CST,W],[("storage bookkeeping updated before running destructors",CS)],[("len, moved last element","what is still considered initialised",CS)],["component Drop","World::borrow","World::clear"])
P("C10","An operation that fails leaves the world consistent",
  "When an operation panics because of the caller (an unregistered component type, a conflicting borrow, an iterator or callback of the caller that panics), the values already handed over are each either stored in the world or dropped, and all other entities are unchanged. Every way of looking at the world (lookups, views, iteration, slices) afterwards agrees, borrows taken by the failed operation are released, and later operations work normally.",
  ["fault_sequences","histories"],"every reachable state, every failing operation, every position of the failure inside it, under every layout",
  "No test makes an operation fail.",
  [SET,W,QA,QO,V],[("component lookup before modification",SET),("grouping of every entity created in bulk",SET),("borrow guards",V)],[],["World::create","World::extend","World::insert","World::query_all"])
P("C11","Parallel iteration visits what sequential iteration visits, once each",
  "However the work of a parallel iteration is divided and scheduled over threads, every item that the sequential iteration of the same query yields is handed to exactly one consumer exactly once, with the same data, and nothing else is. Dense parallel iterators keep the sequential order and report the right length.",
  ["schedules","programs"],"every way of splitting the work, every execution order of the pieces, every query shape and world state",
  "No test iterates in parallel; real runs only show the few splits that a thread pool happens to make.",
  ["src/query/par_iter/mod.rs","src/query/par_iter/dense_par_iter.rs","src/query/par_iter/sparse_par_iter.rs",QA],[("index range mapped to items","src/query/par_iter/dense_par_iter.rs"),("entity slice filtered in parallel","src/query/par_iter/sparse_par_iter.rs")],[],["QueryAll::par_iter","QueryAll::par_for_each","World::par_for_each"])
P("C12","Exclusive access to a component type is never shared",
  "While an exclusive view, query or item over a component type exists, no other access to that type can be obtained from any thread, and while a shared one exists no exclusive access can; attempts panic and leave existing accesses intact, and access becomes available again once the holders are gone. Accesses that do not conflict always succeed, and what one thread wrote under exclusive access is what the next accessor sees.",
  ["schedules","programs"],"every combination of view, single-entity query and all-entities query forms (including optional, include and exclude parts) on the same or different component types, and every interleaving of threads taking and releasing them",
  "No test holds two accesses at once, and no test uses threads.",
  [CST,W,V,QP,QO,QA],[("runtime borrow counting per component storage",CST),("each query part borrows its view",QP)],[("AtomicRefCell per storage","borrow state",CST)],["World::borrow","World::borrow_mut","World::query_one","World::query_all"])
P("C13","Running out of indexes or versions never recycles a handle",
  "When an entity whose version is the last one is destroyed, its index is retired and never issued again; when all indexes have been issued, creation in every form fails with a panic, and neither case ever issues a handle that was issued before or disturbs living entities.",
  ["histories"],"every sequence of creations and destructions around the last version of an index and around the last index",
  "The limits are 2^32 operations away, no test gets near them.",
  [EA,"src/entity/mod.rs"],[("checked version increment","src/entity/mod.rs"),("bounds check before taking an index",EA)],[("next_index_to_allocate","64-bit so that it can pass the limit",EA)],["World::create","World::create_atomic","Version::next"])
P("C14","Query iterators honour the iterator contract",
  "For every query and world state, consuming an iterator step by step, all at once, or partly in one way and partly in the other yields the same items in the same order; size hints always bracket what is left, dense iterators know their exact length, and an exhausted iterator stays exhausted. Iterating the same query object again yields the same items.",
  ["programs","histories"],"every query shape, every world state, every split point between stepping and folding",
  "Tests only collect iterators once, which exercises either stepping or folding but never compares them.",
  ["src/query/iter/dense_iter.rs","src/query/iter/sparse_iter.rs","src/query/iter/mod.rs",QA],[("separate next and fold implementations","src/query/iter/dense_iter.rs")],[],["Iterator::next","Iterator::fold","Iterator::size_hint","ExactSizeIterator::len"])
P("C15","Component views agree with the world",
  "A view over a component type lists exactly the live entities that have it, each once, with the value at the same position of its component slice; lookup, containment, length, emptiness and indexing all agree with that listing for every handle, and indexing by an entity without the component panics. Writes through an exclusive view change exactly the addressed value.",
  ["histories","inputs"],"every reachable world state, every component type and every handle, alive, stale or foreign",
  "No test uses views.",
  [V,CS,SV],[("views over the sparse set",V),("version-checked lookup",SV)],[],["View","ViewMut"])
P("C16","Component registration is idempotent and permanent",
  "Registering a component type succeeds exactly once and never disturbs existing data; a type stays registered through any later operation, and every type mentioned in a group layout is registered by it. Worlds built from one builder are independent, and the order of builder calls does not matter except that setting a layout replaces groups added earlier.",
  ["configurations","histories"],"every sequence of registrations, builder calls, layout changes, clears and resets, interleaved with data operations",
  "One test registers two types in one order, without data and without layouts.",
  [W,"src/world/builder.rs",CST],[("vacant-entry registration",CST),("layout registration",CST)],[("metadata","component type to storage",CST)],["World::register","World::is_registered","WorldBuilder::build"])
P("C17","The public sparse vector behaves as a map keyed by versioned entities",
  "For every sequence of its operations, the sparse vector reports for each entity, and for each bare index, exactly the dense index last stored and not since removed, removes only entries whose version matches, and never lets an access at one index affect another; growing it changes no entry.",
  ["histories","inputs"],"every sequence of operations over a set of indexes and versions, including growth across power-of-two boundaries",
  "No test touches it directly, and the worlds in the tests never hold more than three indexes.",
  [SV],[("power-of-two growth",SV),("version filter",SV)],[("slots","index to versioned dense index",SV)],["SparseVec"])
P("C18","Component tuples of every arity treat every position alike",
  "For every supported tuple size, from one to sixteen components, and every position in it, creating, bulk creating, inserting, removing, deleting, querying, filtering, slicing and grouping affect exactly the component at that position. The order of components within a tuple makes no difference.",
  ["programs"],"every arity from 1 to 16, every position, every kind of use of tuples, grouped and ungrouped",
  "Tests use tuples of at most four components, and only check which entities match, not which value came from which position.",
  [SET,Q,GL],[("macro-generated implementations per arity",SET),("macro-generated query tuples",Q),("macro-generated group descriptors",GL)],[],["World::create","World::extend","World::remove","World::query_all"])
P("C19","A cleared or reset world behaves like a new one",
  "After clear the world has no entities and no components and keeps its registered types and groups, and every later history gives the same results as on a new world with the same configuration, except that handles issued before the clear are not issued again. After reset it behaves exactly like a new world, including the handles it issues.",
  ["histories"],"every reachable state before the clear or reset, with deferred entities pending or not, and every history after it",
  "One test clears a world of one entity and ends there; reset is only called on an empty world.",
  [W,ES,EA,CST,CS],[("clearing of storages and group lengths",CST),("allocator maintain on clear, zeroing on reset",EA)],[],["World::clear","World::reset"])
P("C20","Entities and versions are totally ordered values",
  "Entities compare equal exactly when both index and version are equal, equal entities hash alike, and they are totally ordered by version first and index second, so that sorting is consistent with equality. The version after the last one does not exist and every other version has a strictly greater successor.",
  ["inputs"],"all pairs and triples of entities over boundary indexes and versions",
  "No test compares entities by order.",
  ["src/entity/mod.rs"],[("hand-written Ord","src/entity/mod.rs")],[],["Entity","Version"])
P("C21","Population size does not matter",
  "Every operation and query behaves the same whatever number of entities and components is already stored, and whatever index the entity has: growing any internal storage, at every size at which it happens, loses, moves or changes nothing that can be observed.",
  ["histories","inputs"],"every population size up to a few hundred and sizes around the larger powers of two up to beyond 65536, each combined with every short sequence of operations at the first, last and boundary positions",
  "The tests never hold more than three entities, so no storage ever grows past its first allocation.",
  [CS,SV,ESS,EA],[("doubling of component storage",CS),("power-of-two growth of sparse vectors",SV)],[("cap","allocated capacity",CS)],["World::extend","World::query_all","World::borrow"])
