import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))
BL="client/rust/src/baseline.rs"; OB="client/rust/src/object.rs"; AR="crates/datastructures/arena/src/lib.rs"
PR="client/rust/src/contract/properties"
p("C01","Arena handles identify one value for its lifetime and never alias",
 "A handle obtained by inserting into an arena gives access (shared, mutable, by index) to exactly the value inserted under it until that value is removed through it, and after that is never accepted again, even once its slot has been reused. Removal returns the stored value once, and length, emptiness and membership always agree with the set of live handles. Every traversal (shared, mutable, owning, forwards, backwards, mixed from both ends) yields each live entry exactly once with the handle that names it, and reports its exact remaining length.",
 ["histories"],"every finite sequence of insert, remove, lookup, write, reserve, clone and traversal operations on an arena of any element type",
 "One unit test replays a single four-element script; slot reuse after long histories, iterators under fragmentation and mixed-end traversal are never reached.",
 [AR],[("typed wrapper over a generational arena",AR+" Arena/Index"),("iterator wrappers re-typing raw indices",AR+" Iter/IterMut")],
 observe=["return values of the public arena API"])
p("C02","Objects live from creation to removal, and removal takes all they own",
 "A created object is present, enumerated and listed by its contract until it is removed; from then on its handle is dead everywhere, the contract no longer lists it, and every state and channel it owned is gone. Removal succeeds for every live object of the named contract whatever its fields, and creating or removing one object changes no other object, state, channel or contract. Removing an object that does not exist or that belongs to a different contract reports an error and changes nothing.",
 ["histories"],"every sequence of object creations and removals over any mix of registered contracts and field types, including slot reuse",
 "No test creates or removes an object at all.",
 [BL,OB,"client/rust/src/contract/mod.rs"],[("creation inserts fields, object and contract membership",BL+" object_create"),("removal must retire fields, object and membership together",BL+" object_remove")],
 state=[("objects","arena of live objects",BL),("states/channels","type-indexed arenas of field values",BL),("objects of contract","membership set",'client/rust/src/contract/mod.rs')],
 observe=["Baseline object, iter_objects, contract_data, state, channel"])
p("C03","A contract has one live registration, and unregistering retires it entirely",
 "At most one registration of a given contract identity is live in a baseline: registering it again fails and changes nothing, while different identities coexist. Unregistering with a live handle of that contract removes the registration and exactly the objects created under it, always succeeding however many objects remain; a stale handle or a handle of another contract is refused without effect. After unregistering, the contract can be registered afresh, and handles, field ids and objects of the earlier registration stay invalid.",
 ["histories"],"every interleaving of register, unregister, create and remove over several contracts (same name, different version; same version, different name)",
 "No test registers or unregisters a contract.",
 [BL,"client/rust/src/contract/mod.rs"],[("identity scan on registration",BL+" register_contract"),("cascade on unregistration",BL+" unregister_contract"),("generational contract handles",AR)],
 observe=["Baseline contract_data, register/unregister results, bind results with old ids"])
p("C04","Object creation accepts exactly matching fields and is all-or-nothing",
 "Creating an object succeeds exactly when its contract is registered in that baseline and the supplied states and channels match the contract's declared fields in number, order and exact type. Any mismatch in states or channels (missing, extra, reordered, wrong primitive, scalar instead of list or the reverse), or a contract value that is not registered there, is reported as an error. A failed creation leaves objects, states, channels and contract membership exactly as they were.",
 ["inputs","histories"],"every contract shape and every list of dynamic states and channels, including iterators whose size hints are wrong",
 "No test calls object creation; the type check is macro-generated over two lists and 28 types.",
 [BL,PR+"/dynamic/property.rs"],[("pairwise type check before any insertion",BL+" object_create check_types")],
 observe=["result of object_create, liveness of every known handle, enumeration"])
p("C05","Reads return the last write to that field by any path; nothing else changes",
 "A state or channel read returns exactly the value most recently written to that field of that object, or its creation value, for every property type and whichever access path (typed, dynamic, shared, mutable, indexed) was used to write and to read. A write to one field changes no other field, object, contract or baseline; in particular the main and fork baselines of a realm are independent. Access through a handle whose field no longer exists fails rather than yielding some other value.",
 ["histories"],"every sequence of reads and writes through any mix of access paths over any set of objects, field types and baselines",
 "No test stores a value in a baseline; aliasing and cross-type mixups need many objects, reuse and mixed paths to show.",
 [BL,PR+"/states/handle.rs",PR+"/states/dyn_handle.rs",PR+"/channels/handle.rs",PR+"/channels/dyn_handle.rs","client/rust/src/realm.rs"],
 [("one arena per property type in a type map",PR+"/states/mod.rs StateArenaMap"),("dynamic handle dispatch",PR+"/states/dyn_handle.rs"),("main/fork selection","client/rust/src/realm.rs")],
 observe=["Baseline state/state_mut/channel/channel_mut/Index/IndexMut, dynamic handles"])
p("C06","Binding maps each field of each object to its own storage, or is refused",
 "Binding a field id to an object succeeds exactly when the object is alive and was created under the very contract registration the id came from. The bound handle denotes that object's storage for that field: distinct (object, field) pairs bind to distinct storage, repeated binds agree, and the object's own lookup agrees with the baseline's. Ids of other contracts, of an earlier registration of the same contract, and dead objects are refused with an error.",
 ["histories","inputs"],"every pair of field id (typed or enumerated dynamically) and object handle reachable in any history",
 "No test binds an id.",
 [BL,OB,PR+"/states/id.rs",PR+"/channels/mod.rs"],[("contract check and index lookup",OB+" bind_state/bind_channel"),("dynamic ids",PR+"/dynamic/__macro.rs DynTpPropId")],
 observe=["bind_state/bind_channel results and the values reached through them"])
p("C07","Dynamic values carry their type and payload through every conversion",
 "Wrapping a value of any supported primitive or list type in a dynamic value, channel, id or handle and unwrapping it gives back the identical payload, and the reported type tag is exactly that type's static tag. Unwrapping succeeds for the wrapped type and fails for each of the others. Type-directed dispatch always runs with the concrete type that the value holds.",
 ["inputs"],"all 28 property types, every dynamic family, every payload (extremes, NaN bit patterns, empty and long lists, any Unicode text)",
 "Two tests compare a handful of u16/u32 values; most of the 28 variants of each macro-generated family are never touched.",
 [PR+"/dynamic/__macro.rs",PR+"/dynamic/from_impls.rs",PR+"/dynamic/primitive.rs",PR+"/dynamic/vec.rs",PR+"/channels/dyn_channel/mod.rs",PR+"/traits.rs"],
 [("macro-generated enums and From/TryInto",PR+"/dynamic/__macro.rs"),("hand-written tag tables",PR+"/dynamic/primitive.rs, vec.rs")],
 observe=["From/TryInto/prop_type/apply_to_* results"])
p("C08","Dynamic equality means same type and same contents",
 "Comparing a dynamic value with another dynamic value, or with a plain value, slice or list in either order, is true exactly when both have the same property type and equal contents under that type's own equality. The result does not depend on which side the dynamic value is on or on whether it is owned or a borrowed view. Values of different types are never equal, even with the same bits or numbers.",
 ["inputs"],"all pairs of types among the 28 and all payload pairs, owned or borrowed, in both orders",
 "Two tests compare u16 with u32 and with a list; 26 of 28 types and all borrowed forms are untested.",
 [PR+"/dynamic/eq_impls.rs",PR+"/dynamic/primitive.rs",PR+"/dynamic/vec.rs",PR+"/dynamic/property.rs"],
 [("hand-written PartialEq impls",PR+"/dynamic/eq_impls.rs")],observe=["== and != results"])
p("C09","Borrowed dynamic views show and write through to the owner",
 "A shared dynamic view of a value, list, state or channel shows exactly the owner's current type and contents, without copying. A mutable view writes through: what is stored through it is what the owner then holds, and only that owner changes. Views obtained by any of the available borrow or conversion routes are equivalent.",
 ["inputs"],"all 28 property types, all payloads, all borrow routes (owned dynamic value, plain reference, list, slice, state, channel, nested reference)",
 "Only two doc examples with strings exist; none of the dynamic view types is tested.",
 [PR+"/dynamic/borrow_impls.rs",PR+"/dynamic/from_impls.rs",PR+"/dynamic/property.rs",PR+"/states/dyn_state.rs",PR+"/channels/dyn_channel/from_impls.rs","crates/better_borrow/src/lib.rs"],
 [("extended borrow traits","crates/better_borrow/src/lib.rs"),("per-variant borrow dispatch",PR+"/dynamic/borrow_impls.rs")],observe=["contents and addresses seen through views"])
p("C10","A contract's declared fields are enumerated faithfully, by any iterator use",
 "For any contract declaration, the field names, type ids, property types, accessors, indexed lookup and dynamic ids all describe the declared fields in declaration order, each bound to the contract's own handle, and lookups past the end give nothing. The field iterators behave as sequences of exactly those fields under every combination of iterator operations (advance, skip to n-th, step, count, last, size hints), for any argument, without panicking. Every property type that can be stored, scalar or list, can be declared as a field.",
 ["programs","inputs"],"every field-struct declaration accepted by the attribute macros, and every sequence of iterator calls on it",
 "One test declares two structs with a few scalar fields; no test advances a field iterator, and list-typed fields are not exercised.",
 ["client/contract_macro/src/lib.rs",PR+"/mod.rs",PR+"/states/iter.rs",PR+"/channels/mod.rs","client/rust/src/contract/mod.rs"],
 [("attribute macros generating accessors and tables","client/contract_macro/src/lib.rs"),("iterator with custom nth/size_hint",PR+"/mod.rs prop_iter")],
 observe=["generated accessors and tables, StatesIter/ChannelsIter results"])
p("C11","Channels hold exactly the given keyframes, ordered by time",
 "A channel built from any keyframes holds exactly those keyframes, each value still paired with its own time, none lost, duplicated or altered. Times are in non-decreasing order whatever the input order, including repeated, infinite and signed-zero times, and not-a-number times never disturb the order of the rest. Construction never panics, and channels with no keyframes are allowed.",
 ["inputs"],"every finite sequence of keyframes of any property type with any times",
 "No test constructs a channel.",
 [PR+"/channels/channel.rs"],[("sort on construction",PR+"/channels/channel.rs Channel::new")],observe=["keyframes of the built channel"])
p("C12","Time arithmetic saturates, scales exactly and converts in its own units",
 "Adding, subtracting and scaling times never wraps or panics: a result out of range is clamped to the nearest representable time, and otherwise is the exact sum, difference, or fixed-point product rounded down. Compound assignment equals the plain operation, and warping a channel time equals subtracting the offset and then scaling. Conversion to seconds agrees with the declared number of ticks per second, whole seconds being truncated, and advancing a realm's clock accumulates ticks without ever going backwards for non-negative steps.",
 ["inputs","histories"],"all tick counts, scales and offsets, and all sequences of clock advances",
 "One test evaluates three small warps; extremes, negatives and unit conversion are not tested.",
 ["client/rust/src/time/mod.rs","client/rust/src/engine.rs"],[("saturating add/sub, widened fixed-point multiply","client/rust/src/time/mod.rs"),("clock advance","client/rust/src/engine.rs tick")],
 observe=["results of the public time operators"])
p("C13","Interpolated values stay between their endpoints and reach them",
 "Interpolating between any two values of the same integer property type gives the start value at blend 0 and the end value at blend 1, and in between a value between the two, in proportion to the blend but for rounding and moving monotonically from start to end, in both increasing and decreasing directions. Values that cannot be interpolated jump: they keep the start value until the blend completes and then take the end value. No choice of endpoints or blend in [0, 1] panics or overflows.",
 ["inputs"],"all endpoint pairs of every integer property type and all blend values in [0, 1], through every easing function that stays in [0, 1]",
 "Two tests interpolate from -2 to 8 at a dozen points; decreasing, unsigned-to-lower, wide and extreme ranges are not tested.",
 [PR+"/channels/misc.rs"],[("integer and jump tween wrappers",PR+"/channels/misc.rs")],observe=["eased values"],
 hook="the tween wrappers are in a private module: made visible under the verification cfg")
p("C14","Every queued action batch is handled exactly once, in order, by the engine",
 "Every batch successfully sent through any of an engine's senders is handled exactly once, in the order it was sent by that sender, and is handed back to whoever drives the engine; none is lost, duplicated, merged or invented, however many threads send and whatever the queue capacity. When no batch is pending the engine says so (immediately, or when the timeout passes) and changes nothing; batches pending when senders disappear are still delivered before disconnection is reported. A bounded queue never holds more than its capacity.",
 ["schedules","histories"],"every number of senders, capacity, mix of blocking, timed and non-blocking sends and receives, and thread interleaving",
 "No test creates an engine or sends anything.",
 ["client/rust/src/engine.rs","client/rust/src/action/mod.rs"],[("channel between senders and the engine","client/rust/src/engine.rs Engine::new/try_apply/apply_timeout")],
 observe=["send results, apply results and the identity of returned batches"],hook="a constructor for action batches (there is no public one), under the verification cfg")
p("C15","Action batches are atomic on the fork and never touch the main baseline",
 "A batch is accepted exactly when, applied in order to the fork baseline, every assertion matches the value then held and every write targets a live field of the value's own type; its writes then all take effect in order. Otherwise it is rejected, handed back as it was sent, and the fork baseline is exactly as it was before, including when earlier writes of the same batch hit the same field repeatedly. No batch, accepted or rejected, changes the main baseline, the realm clock or any field it does not name, and no batch content makes the engine panic.",
 ["histories","inputs"],"every batch of assertions and writes, valid and stale handles, matching and mismatching types, over every fork state and history of earlier batches",
 "No test applies a batch.",
 ["client/rust/src/engine.rs","client/rust/src/action/property.rs","client/rust/src/realm.rs"],[("apply, remember, reverse on failure","client/rust/src/engine.rs apply_collaction/reverse_actions"),("swap-based writes","client/rust/src/engine.rs apply_action")],
 observe=["verdict of each batch, full contents of both baselines"],hook="a constructor for action batches, under the verification cfg")
p("C16","The C interface owns memory exactly: no leak, double free or stray access",
 "Any client that follows the ownership of the C interface (each owned result released once by its release function, or handed to exactly one call that takes ownership; borrowed results used only while their owner lives) causes no out-of-bounds or use-after-free access, no double free and no undefined behaviour. When such a client has released everything it owns, all memory obtained on its behalf has been returned. Every owned value that the interface hands out can be released through the interface.",
 ["histories","inputs"],"every well-behaved sequence of C interface calls over all 14 value types, strings, lists, states, channels, baselines and contracts",
 "No test calls any exported function; header generation only lists them.",
 ["crates/rsharp/rust/src/rvec.rs","crates/rsharp/rust/src/string.rs","crates/rsharp/rust/src/rbox.rs",BL,PR+"/states/mod.rs",PR+"/channels/channel.rs","client/contract_example/rust/src/lib.rs","demos/unity_states/rust/src/lib.rs"],
 [("boxed ownership transfer","crates/rsharp/rust/src/rbox.rs"),("reference casts to wrapper types",PR+"/mod.rs impl_from_refcast")],
 observe=["AddressSanitizer and LeakSanitizer reports, allocation balance"])
p("C17","The C interface does what the Rust interface does, for every type",
 "Each exported function has the effect and result of the corresponding Rust operation on the same baseline: values, states, channels, keyframes, lists, ids, handles, contract names and versions read back through the C interface equal what was stored, for all 14 value types. The contract-specific functions deliver every argument to the field of the same name, and text crosses in UTF-8 and UTF-16 without loss for every Unicode string. A call with a handle of a removed object or contract, or with a field id of another contract, never returns normally with some other object's data.",
 ["histories","inputs"],"every value of every type, every text, and mixed histories of C and Rust calls on the same baseline",
 "No test calls any exported function.",
 [BL,PR+"/states/mod.rs",PR+"/states/id.rs",PR+"/states/handle.rs",PR+"/channels/channel.rs",PR+"/channels/mod.rs","crates/rsharp/rust/src/string.rs","crates/rsharp/rust/src/rvec.rs","client/rust/src/contract/mod.rs","client/contract_example/rust/src/lib.rs","demos/unity_states/rust/src/lib.rs"],
 [("monomorphised wrappers",BL+" c_api"),("string transcoding","crates/rsharp/rust/src/string.rs")],
 observe=["results of exported functions compared with the Rust API"])
p("C18","Generated bindings name only what the library exports, completely",
 "Every function declared in the generated C headers is exported by the library under that exact name with the declared parameters, every exported interface function is declared exactly once, and the headers compile as C and C++. Exported functions of the platform's crates are prefixed by their module path, so that no two crates or types collide. The generated C# wrappers cover every supported value type, use the value type of the same width and kind, and import only functions that the library exports.",
 ["configurations","programs"],"every exported function of every interface crate, every value type",
 "The header tests only check that generation does not fail; nothing compiles the header or compares it with the library.",
 ["crates/rsharp/rust/macro/src/remangle.rs","client/codegen_wrapped/src/lib.rs","crates/rsharp/codegen/src/codegen.rs","client/codegen_wrapped/src/main.rs"],
 [("export-name mangling","crates/rsharp/rust/macro/src/remangle.rs"),("C# templates","client/codegen_wrapped/src, crates/rsharp/codegen/src")],
 observe=["header text, symbol table, compiled client, generated C#"])
p("C19","Interface macros rename and substitute exactly what they are asked to",
 "Renaming an item for export prefixes its exported name with the given path, each separator replaced as documented, for functions and types alike, leaving the item's own behaviour and Rust name unchanged. Substitution replaces every placeholder that stands for an expression, at any nesting depth, or inside an attribute, by the given tokens and leaves every other token as it was. Malformed uses, and placeholders where they cannot be replaced, are reported as compile errors, never accepted silently.",
 ["programs"],"every item and path the macros are applied to",
 "Two tests check a few fixed token streams.",
 ["crates/rsharp/rust/macro/src/remangle.rs","crates/rsharp/rust/macro/src/substitute.rs","crates/rsharp/rust/macro/src/lib.rs"],
 [("token-stream rewriting","crates/rsharp/rust/macro/src/substitute.rs")],observe=["exported symbol names and run-time behaviour of generated client programs"])
p("C20","Safe use is free of undefined behaviour, and reads may run in parallel",
 "No program using only the safe Rust interface, in any history of operations and with any property types, reaches undefined behaviour. Between write phases any number of threads may read a baseline at once: all see the same committed values and there is no data race. Moving baselines and engines between threads, and sending batches from several threads, is equally race-free.",
 ["histories","schedules"],"every safe history over the storage, dynamic-value, channel and engine interfaces, and every interleaving of parallel readers and senders",
 "Tests are single-threaded, touch none of the type-map storage that relies on unsafe code, and run without any checker of undefined behaviour.",
 [BL,PR+"/states/mod.rs",PR+"/channels/mod.rs","client/rust/src/engine.rs",AR],
 [("type-keyed storage built on unsafe downcasts",PR+"/states/mod.rs StateArenaMap"),("reader/writer phase discipline","client/rust/src/engine.rs")],
 observe=["Miri reports, values seen by each reader"])
p("C21","Serialising a baseline and reading it back reproduces it",
 "Reading a serialised selection of contracts into a baseline recreates each of their objects exactly once, in its contract, with every state value equal to the original, for all fourteen scalar types. References between objects and to contracts, including self-references and cycles, arrive pointing at the recreated counterparts, whatever the order in which contracts are written, registered and read. Serialising changes nothing in the source baseline. A selection that the format cannot hold (not closed under references, a contract given twice, states that are lists, objects with channels) is refused on writing or on reading, never read back as something else.",
 ["inputs","histories"],"every baseline reachable through the public interface and every selection of contracts, in every order of writing, registering and reading",
 "The one round-trip test covers two fixed contracts and one reference per object, and cannot be built without network access.",
 ["client/serialize/rust/src/serializer/mod.rs","client/serialize/rust/src/serializer/handle_map.rs","client/serialize/rust/src/deserializer/new","client/serialize/rust/src/types","client/serialize/flatbuffers"],
 [("handle to index map on writing","client/serialize/rust/src/serializer/handle_map.rs"),("index to handle map on reading","client/serialize/rust/src/deserializer/new/mod.rs")],
 observe=["contents of the baseline after deserialising"])
p("C22","Reading serialised data never panics and accepts only matching contracts",
 "Any byte sequence offered as a serialised baseline is either read or refused with an error: opening it, registering contracts, reading the objects of registered contracts (once or again) and finishing never panic or hang. A contract is accepted only if the data describes it with the same name, version, field names and field types, and only once. An object with the wrong number of states, a state of another, no or unknown type, a state, text or reference that is missing or out of range, or an object that was never asked for, is an error, so a baseline that is handed out holds exactly the objects the data describes and no dangling reference. The type tags of the format and those of the client agree type by type.",
 ["inputs","fault_sequences"],"every byte string, including truncations, bit flips and structure-aware corruptions of valid data, and every order of deserialisation steps",
 "The round-trip test only reads data it has just written, in one order, and cannot be built here.",
 ["client/serialize/rust/src/deserializer/new/mod.rs","client/serialize/rust/src/deserializer/new/contracts.rs","client/serialize/rust/src/deserializer/new/objects.rs","client/serialize/rust/src/deserializer/new/states.rs","client/serialize/rust/src/types/eq_impl.rs","client/serialize/rust/src/types/from_impl.rs"],
 [("buffer verification and contract matching","client/serialize/rust/src/deserializer/new/mod.rs")],observe=["result of each deserialisation step"])
p("C23","Memory follows the live contents: nothing accumulates over churn",
 "Creating and removing objects, registering and unregistering contracts, binding, writing, and pushing batches through an engine any number of times keeps memory bounded by the peak number of live things, not by the number of operations. Dropping a baseline, channel, engine or batch releases everything it owned. Each stored value is dropped exactly once, never earlier than its removal or overwrite.",
 ["histories"],"every long-running history whose live contents stay bounded",
 "No test repeats an operation or measures memory.",
 [BL,OB,AR,"client/rust/src/engine.rs"],[("removal returns slots and values",BL+" object_remove"),("slot reuse",AR)],
 observe=["bytes and blocks outstanding in a counting allocator"])
G="demos/circle_game/src"
p("C24","The circle demo draws each circle where its own object says",
 "Starting the demo creates one hundred objects of its contract in the fork baseline, on a grid of ten by ten, and one circle for each, drawn where the object is; main stays empty. From then on, in whatever order the systems of a frame run and whatever else changes the objects, each circle is drawn at exactly the coordinates that its own object has in the circle's own baseline, whatever these are. Every object that a circle of the fork shows walks in every frame, each coordinate by at most one unit and independently of the others, and the walk changes nothing else and never writes to main. A start that fails is reported, not ignored.",
 ["histories","schedules"],"every order of the demo's systems over any number of frames, and every change made to the objects in between",
 "The demo has no tests, and cannot be built without network access.",
 [G+"/lib.rs",G+"/circle.rs",G+"/circle_bundle.rs",G+"/components.rs"],
 [("spawning objects with their circles",G+"/lib.rs setup"),("walk and synchronisation",G+"/lib.rs random_walk, sync_transforms")],
 observe=["object states and component values after each system"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
