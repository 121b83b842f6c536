"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {}),
                          "hook_needed": hook}})
S = "src/psygnal/_signal.py"; G = "src/psygnal/_group.py"; W = "src/psygnal/_weak_callback.py"
D = "src/psygnal/_group_descriptor.py"; M = "src/psygnal/_evented_model.py"
C = "src/psygnal/containers/"

prop("C01", "Every emission reaches each connected callback exactly once, in order",
 "Emitting a signal calls every connected callback exactly once per connection, by descending priority and then connection order, with the emitted arguments cut to what that connection accepts. Disconnected or dead callbacks are never called again, and membership, length and unique= answers always agree with the connect/disconnect history. Connecting, disconnecting or emitting from inside a callback never makes another connected callback be skipped or be called twice by the same emission.",
 ["histories", "programs"], "all histories of connect (any priority, unique mode, max_args, callable kind), disconnect, owner deletion and emit/emit_fast/call, including those operations performed by callbacks during an emission (default 'immediate' reemission)",
 "Tests fix a handful of slots and one or two priorities and never mutate connections inside an emission of several slots; the guarantee ranges over all interleavings of mutation and delivery.",
 [S, W], [("SignalInstance.connect/_append_slot/_remove_slot/_slot_index", S), ("_run_emit_loop*, emit, emit_fast, _iter_slots", S), ("WeakCallback.cb/__eq__", W)],
 ["callbacks", "len(signal)", "slot in signal"], [("slots", "ordered connections", S)])

prop("C02", "Connection is accepted iff the callback can be called, and then it can",
 "Unless max_args is given or argument checks are disabled, connect() accepts a callable exactly when it can be called with some prefix of the signal's positional arguments and needs no keyword argument, and raises ValueError otherwise, leaving the connections unchanged; an accepted callback then receives the longest prefix it can take (never more than max_args). With check_types, annotated parameters incompatible with the signal's types are refused, and emit(check_nargs/check_types) rejects argument lists that do not fit the signature with TypeError before any callback runs.",
 ["inputs", "configurations"], "all callable shapes (parameter kinds, defaults, *args, **kwargs, methods, static/class methods, callable objects, functools.partial, wrapped and builtin callables) x signal signatures x check flags x max_args",
 "The parametrized tests sample about a dozen callables on one- and two-argument signals; the acceptance rule quantifies over all signatures.",
 [S], [("_check_nargs/_acceptable_posarg_range", S), ("_parameter_types_match/_is_subclass", S), ("SignalInstance.emit", S)], ["connect() result", "arguments received"])

prop("C03", "Re-emission from callbacks follows the declared reemission mode",
 "When callbacks emit signals while an emission is running, 'immediate' runs the nested emission completely before the remaining callbacks, 'queued' delivers every value to all callbacks before any later value, in emission order, and 'latest-only' runs the nested emission at once and never delivers the superseded value to the remaining callbacks. This holds for any nesting over several signals of different modes, and later top-level emissions are unaffected.",
 ["programs", "histories"], "all finite emission programs over several signals with mixed modes, priorities and callbacks that emit (the same or other signals) at scripted calls",
 "Tests contain one nesting pattern per mode on a single signal; interaction of depths, several signals and modes is never exercised.",
 [S], [("_run_emit_loop, _run_emit_loop_immediate/_queued/_latest_only", S), ("recursion depth bookkeeping", S)], ["global order of callback invocations"],
 [("emit queue", "pending emissions of one signal", S), ("recursion depth", "current and maximal nesting", S)])

prop("C04", "A failing callback surfaces as EmitLoopError and leaves the signal usable",
 "If a callback raises, emit() raises EmitLoopError whose cause is the original exception (for nested emissions too), callbacks ordered before the failing one have run and those after it have not, and endless recursion ends in RecursionError. Afterwards every later emission on every involved signal behaves as if the failure had not happened: nothing is lost, repeated, left queued, or left locked, whatever the emitting object is.",
 ["fault_sequences", "histories"], "all emission programs (all reemission modes, emit_fast, groups) with faults injected at any callback invocation, over any owner object (odd __bool__/__eq__/__repr__), followed by further emissions, from the same or another thread",
 "Tests inject one fault and check the message; that the state recovers for every mode, depth and fault position is not checked.",
 [S, "src/psygnal/_exceptions.py"], [("_run_emit_loop try/finally", S), ("EmitLoopError.__init__", "src/psygnal/_exceptions.py"), ("RECURSION_LIMIT", S)], ["exceptions", "subsequent emissions"])

prop("C05", "sender() and current_emitter() identify the innermost running emission",
 "Inside a callback Signal.sender() and Signal.current_emitter() return the object and signal instance whose emission is innermost on the current thread; after a nested emission ends (normally or by exception) they again return the enclosing one, and outside any emission they return None. Emissions on other threads never change the answer.",
 ["histories", "schedules"], "all nested emission programs over several emitters, with exceptions at any point and with emissions overlapping on other threads",
 "Tests query the sender one level deep on a single thread.",
 [S], [("Signal._emitting, current_emitter, sender", S)], ["Signal.sender()", "Signal.current_emitter()"])

prop("C06", "Blocking suppresses and pausing defers emissions, exactly once, nestably",
 "While a signal is blocked its emissions reach nobody; while it is paused they are recorded, and resuming delivers each of them exactly once in order, or their reduction when a reducer is given. Leaving a blocked() or paused() context restores the state that held on entry, so nested contexts do not release an outer block or pause; emissions delivered or dropped once are never delivered again, even if a callback raises or pauses the signal while it resumes.",
 ["histories", "fault_sequences"], "all histories of block/unblock/pause/resume/contexts/emit (emit and emit_fast), reducers with and without initial, callbacks that raise, re-emit or pause",
 "Tests use one context with three emissions; nesting, mixed use and faults during resume are not sampled.",
 [S], [("block/unblock/blocked/_SignalBlocker", S), ("pause/resume/paused/_SignalPauser", S)], ["deliveries"], [("args queue", "emissions recorded while paused", S)])

prop("C07", "Connections never keep method owners alive; dead ones vanish alone",
 "Connecting a bound method, a partial of one, a builtin method of a weak-referenceable object, a callable object, connect_setattr or connect_setitem keeps no strong reference to the object, so it is freed as soon as its last user reference goes; its connections then disappear from the signal (length, membership, emission) and no other connection is affected, while plain functions and lambdas stay connected without outside references. The signal does not keep its own owner alive either.",
 ["histories"], "all histories of connecting several objects through every callable kind and dropping references in any order, including during emissions and while callbacks are queued for another thread",
 "Tests drop one object with one connection; the guarantee is about arbitrary sets of connections and drop orders.",
 [W, S], [("_try_ref, _kill_and_finalize, WeakMethod/WeakBuiltin/WeakFunction/WeakSetattr/WeakSetitem", W), ("SignalInstance._try_discard, _instance_ref", S)], ["weakref.ref(obj)()", "len(signal)"])

prop("C08", "connect_setattr and connect_setitem keep targets equal to the last emission",
 "After connect_setattr(obj, name) or connect_setitem(obj, key), each emission stores the emitted value (or tuple of values, cut to maxargs) in exactly that attribute or item, ordered among other slots by priority; disconnect_setattr/disconnect_setitem removes exactly the binding with that object and name, and unsuitable targets are refused with nothing connected.",
 ["histories", "inputs"], "all sets of bindings over several objects, attribute names and keys (of any hashable type), maxargs values and priorities, with emissions, disconnections and object deletion interleaved",
 "Tests bind one attribute of one object.",
 [S, W], [("connect_setattr/disconnect_setattr/connect_setitem/disconnect_setitem", S), ("WeakSetattr, WeakSetitem", W)], ["target attributes and items"])

prop("C09", "thread= callbacks run on their thread, once, in order",
 "A callback connected with thread=T is called directly when the signal is emitted on T, and otherwise exactly once per emission when emit_queued() runs for T, never on another thread's drain, in the order of emission per thread. A failing queued callback raises EmitLoopError from emit_queued() and loses no other queued call; callbacks without thread= are called on the emitting thread at once.",
 ["schedules", "histories", "fault_sequences"], "all histories of emissions from several threads to callbacks bound to several threads, drains at any point (also from inside queued callbacks) and failing callbacks",
 "Tests use one worker thread and one drain at the end.",
 ["src/psygnal/_queue.py", S, "src/psygnal/qt.py"], [("QueuedCallback.cb, emit_queued", "src/psygnal/_queue.py"), ("connect(thread=...)", S)], ["thread identity and order of calls"], [("global queue", "per-thread FIFO of pending calls", "src/psygnal/_queue.py")])

prop("C10", "Concurrent use of one signal loses and repeats nothing",
 "When several threads emit, connect and disconnect on the same signal, every emission is delivered exactly once to each callback connected throughout, the deliveries of two emissions of the same signal never interleave, no internal error or deadlock occurs, and afterwards the connections are exactly those the completed operations imply.",
 ["schedules"], "all interleavings (at source-line granularity) of a few threads performing emit, connect, disconnect and queued delivery on shared signals, in all reemission modes",
 "The tests start one worker thread; which interleaving happens is left to the OS and the racy windows are practically never hit.",
 [S, "src/psygnal/_queue.py"], [("SignalInstance._lock in connect/disconnect/_run_emit_loop", S)], ["per-callback delivery log"])

prop("C11", "Each object has its own, stable signal instance",
 "Accessing a Signal attribute on an object always returns the same signal instance for the object's lifetime, distinct from that of every other object and of every other Signal on it, with the declared name, signature, description and owner; connections and emissions on one never show on another. This holds for ordinary, slotted, unhashable, equality-overriding, subclassing and explicitly named cases, also after other objects died.",
 ["configurations", "histories"], "all class layouts (slots, __eq__/__hash__ overrides, inheritance, overriding, name=, duck-typed metaclasses) x histories of creating, accessing, connecting, deleting objects",
 "Tests check one class at a time with one or two live instances; id reuse and shared caches need histories.",
 [S], [("Signal.__get__, __set_name__, _cache_signal_instance", S)], ["identity of obj.sig", "deliveries"], [("per-class instance cache", "fallback for slotted classes", S)])

prop("C12", "A signal group relays every child emission exactly once",
 "A callback connected to a SignalGroup (or group.all) is called exactly once for each emission of any member signal with an EmissionInfo naming that signal and its arguments, in emission order, however many callbacks are connected and disconnected over time; connect_direct delivers the member's own arguments, and group disconnect(slot) removes that slot from the group and from its members, raises ValueError only if it is connected nowhere (and missing_ok is false), and touches no other callback.",
 ["histories", "configurations"], "all group shapes (inheritance, member arity, reserved names, strict/uniform) x histories of connect/connect_direct/disconnect/emit on group and members, including nested emissions inside callbacks",
 "Tests use one two-signal group and connect once.",
 [G], [("SignalRelay._slot_relay/_append_slot/_remove_slot/connect_direct/disconnect", G), ("SignalGroup.__init_subclass__/__getattr__/__getitem__", G)], ["EmissionInfo sequence"])

prop("C13", "Blocking and pausing a group is exact and restores what was before",
 "Blocking a group suppresses every member except the excluded ones, for group and direct member callbacks; leaving the (possibly nested) block restores each member to the blocked or unblocked state it had before, however blocks of the group and of members overlap. Pausing a group defers its relayed events and delivers each exactly once, in order (or reduced), on resume.",
 ["histories"], "all well-nested histories of group.block/blocked(exclude=...)/paused and member block/unblock/blocked/paused with emissions in between",
 "Tests block once with one exclusion and never nest.",
 [G, S], [("SignalRelay.block/unblock/blocked/_slot_relay", G)], ["deliveries to member and group callbacks"], [("member block state", "what was blocked before", G)])

prop("C14", "EventedModel emits for every field change, only for changes, with new values",
 "Setting a field of an EventedModel emits that field's signal exactly once with the value the field then has if the value changed under the field's equality, and emits nothing otherwise; property setters and computed fields that depend on fields emit exactly when their value changed. update() and reset() leave the same state as individual assignments and emit each changed field's signal once, a failed validation changes and emits nothing, and group listeners see the same events.",
 ["inputs", "histories", "configurations"], "generated model classes (field types, defaults, property setters, field dependencies, validators, validate_assignment, aliases, field names that collide with group API) x histories of assignments, update, reset, with and without listeners",
 "Tests contain hand-written models and single assignments.",
 [M], [("EventedModel.__setattr__ and helpers, update, reset, _get_fields_to_check/field dependents", M)], ["model signals", "model state"])

prop("C15", "evented dataclasses emit (new, old) iff an attribute changed",
 "For a dataclass-like class made evented (decorator or SignalGroupDescriptor), with or without listeners, attribute assignment behaves exactly as on the undecorated class, and each field's signal is emitted exactly once with (new, old) when the value changed under the field's comparison and not at all otherwise. This is true for dataclasses, attrs, msgspec and pydantic classes, field aliases, custom equality operators, inheritance, own __setattr__, several instances and several groups.",
 ["inputs", "histories", "configurations"], "generated classes (library, fields, aliases, frozen/private/ClassVar fields, eq operators, inheritance depth, user __setattr__/properties) x histories of assignments on several instances",
 "Tests are per-library examples with one assignment each.",
 [D, "src/psygnal/_evented_decorator.py", "src/psygnal/_dataclass_utils.py"], [("evented_setattr, SignalGroupDescriptor, _build_dataclass_signal_group, _pick_equality_operator", D), ("iter_fields", "src/psygnal/_dataclass_utils.py")], ["field signals", "attribute values"])

prop("C16", "EventedList is a list whose events replay its history",
 "Any sequence of operations on an EventedList returns the same values, raises the same exception types and leaves the same contents as on a built-in list, and applying its emitted events in order to a copy of the starting contents reproduces the final contents, with nothing emitted by operations that fail or that leave every item where it is (except changed by assigning equal slices and reordered). move and move_multiple permute exactly as documented, and events of evented children are relayed exactly while they are in the list, with their index.",
 ["histories", "inputs"], "all histories of the mutable-sequence operations with any index and slice (negative, extended, out of range), move/move_multiple, repeated items and evented children",
 "Tests run each operation once on range(5).",
 [C + "_evented_list.py"], [("EventedList.__setitem__/__delitem__/insert/move/move_multiple/_pre_insert/_reemit_child_event", C + "_evented_list.py")], ["contents", "events"])

prop("C17", "EventedDict is a dict whose events replay its history",
 "Any sequence of operations on an EventedDict returns the same values, raises the same exception types and leaves the same contents as on a built-in dict restricted to the allowed value types, and applying its adding/added/changing/changed/removing/removed events in order reproduces the contents, with exactly one such pair per changed key and nothing emitted by operations that fail.",
 ["histories", "inputs"], "all histories of mapping operations with arbitrary hashable keys, allowed and refused value types and constructor forms",
 "Tests run each operation once.",
 [C + "_evented_dict.py"], [("TypedMutableMapping, EventedDict.__setitem__/__delitem__", C + "_evented_dict.py")], ["contents", "events"])

prop("C18", "Evented sets are sets whose items_changed events are exact",
 "Any sequence of operations on an EventedSet or EventedOrderedSet returns the same values, raises the same exception types and leaves the same members as on a built-in set (insertion-ordered for the ordered one), and each operation emits items_changed exactly once with precisely the members it added and removed if there are any, and nothing otherwise.",
 ["histories", "inputs"], "all histories of set operations and operators with iterables of any kind (duplicates, iterators, the set itself, several or no arguments) and member checks/transforms",
 "Tests run each operation once on small ranges.",
 [C + "_evented_set.py"], [("_BaseMutableSet, OrderedSet, EventedSet._bulk_update/_pre_add_hook/_emit_change", C + "_evented_set.py")], ["members", "items_changed"])

prop("C19", "Selection stays a subset of its list with a consistent active item",
 "The selection of a SelectableEventedList only ever contains items of the list; active is the single selected item or None; and the current item, if any, is in the list. The events of selection (items_changed, active) fire exactly when these change, with the new state, and select_next/previous/all, toggle, select_only and remove_selected do what they say from any reachable state.",
 ["histories"], "all histories of list mutations, selection mutations, setting active/current, and selection commands, on lists with distinct items",
 "Tests start from one prepared selection and apply one command.",
 [C + "_selection.py", C + "_selectable_evented_list.py"], [("Selection._update_active/_pre_add_hook, Selectable", C + "_selection.py"), ("SelectableEventedList commands", C + "_selectable_evented_list.py")], ["selection, active, events"])

prop("C20", "throttled and debounced calls follow the policy, losing no final call",
 "For any timing of calls, a throttled function is run at most once per timeout, and a debounced one only after (trailing) or before (leading) a quiet period of the timeout; each run gets the arguments of a call according to the policy (leading: the first of a burst; trailing: the latest), and the last call of a burst is never lost under 'trailing'. flush() runs a pending call at once, cancel() drops it, and a raising function does not stop later calls.",
 ["schedules", "histories", "fault_sequences"], "all sequences of calls, flush, cancel and clock advances (virtual clock, timer callbacks at any point), both policies, any timeout, function raising at any call",
 "Tests sleep in real time and count calls for a few patterns.",
 ["src/psygnal/_throttler.py"], [("_ThrottlerBase, Throttler, Debouncer, throttled, debounced", "src/psygnal/_throttler.py")], ["times and arguments of runs of the wrapped function"])

prop("C21", "EventedObjectProxy is transparent and reports exactly the changes",
 "Using an EventedObjectProxy gives the same results, exceptions and effects as using the wrapped object directly, for attributes, items, deletion and in-place operators, and it emits attribute_set/attribute_deleted/item_set/item_deleted/in_place exactly when the operation took effect (a set that leaves the identical object in place is silent), with the name or key and the new value; the callable proxy emits called once per call with its arguments; events of one proxy never reach listeners of another.",
 ["histories", "inputs"], "histories of attribute, item, deletion, call and in-place operations on proxied lists, dicts, arrays and plain objects",
 "Tests do one operation of each kind.",
 [C + "_evented_proxy.py"], [("EventedObjectProxy, EventedCallableObjectProxy", C + "_evented_proxy.py")], ["wrapped object", "events"])

prop("C22", "monitor_events sees every emission and leaves no trace",
 "monitor_events(obj, callback) calls the callback exactly once for each emission of each signal of the object, or of every object if none is given (and of nothing else) while the context is active, also for emissions delivered by resume(), passing each signal's own arguments, and on exit, also by exception, leaves the object's connections exactly as they were; iter_signal_instances yields each signal instance of the object exactly once.",
 ["configurations", "histories"], "objects with any number of own, inherited, slotted and grouped signals, properties that raise, include_private choices, and histories of emissions, user connections and nested monitors",
 "Tests monitor one object with one signal.",
 ["src/psygnal/utils.py", G], [("monitor_events, iter_signal_instances", "src/psygnal/utils.py")], ["monitor callback", "len(signal)"])

prop("C23", "Copies and pickles of signals, groups and containers are faithful and detached",
 "Deep-copying or pickling and restoring a signal, an object owning signals, a signal group, an evented model, an evented dataclass (pickling: where the group is not cached on the instance) or an evented container yields an equal object of the same type, whose signals have the same declaration and state (blocked, paused, queued emissions) and the strongly held function slots of the original (same order, priority and argument limit; a deep copy of a group has none and is unblocked), whose events belong to the copy, and which otherwise behaves as a newly built object; copy.copy()/model_copy() of models and containers likewise. Operations on the copy never reach the state, queue or weakly held callbacks of the original nor the reverse, whatever the original is doing (blocked, paused, emitting).",
 ["histories", "configurations"], "all objects built by histories of connections and changes, copied by deepcopy or pickle at any point, also inside a callback, followed by operations on both",
 "Tests round-trip one default object of some of the types and check that no exception is raised.",
 [S, W, G, C], [("SignalInstance.__getstate__/__setstate__", S), ("StrongFunction.__getstate__/__setstate__", W), ("SignalGroup.__deepcopy__", G), ("EventedModel.__copy__/__deepcopy__/__getstate__", "src/psygnal/_evented_model.py"), ("EventedList.__setstate__", C)], ["copies"])

prop("C24", "Evented containers validate and serialise in pydantic like plain ones",
 "A pydantic field annotated with an evented container type (list, selectable list, set, ordered set, selection, dict; nested, with models, also recursive ones) accepts and rejects exactly the inputs that the plain container of the same element types does, holds a new evented container with the coerced elements (in order, for ordered sets) that works as such and independently of the input, and dumps (python, JSON, JSON schema) like the plain one, without warnings; validating the dumps gives an equal model.",
 ["inputs"], "generated element types and input data (valid and invalid, plain and evented containers, nested) for list, set, ordered set, dict and selectable list fields",
 "Tests validate one value per container.",
 [C + "_evented_list.py", C + "_evented_dict.py", C + "_evented_set.py", "src/psygnal/_evented_model.py"], [("__get_pydantic_core_schema__", C)], ["model fields", "dumps"])

prop("C25", "A signal group has exactly the declared signals",
 "A SignalGroup class has exactly the signals declared in it and inherited (the nearest declaration of a name counts), each instance has its own, stable signal instance for every one of them with the declared name and types, reachable by item and, unless the name is reserved (which warns and leaves the group's API intact), by attribute; uniform and strict follow from the signatures. The group of an evented dataclass-like class has exactly one signal per mutable field of the class (inherited ones included, class and init-only variables not), subject to aliases and the group class given, and is_evented and get_evented_namespace tell which classes and objects have one.",
 ["configurations"], "all hierarchies of SignalGroup classes and mixins, and all dataclass-like classes (dataclass, attrs, msgspec, pydantic) with any fields, class variables, properties, inheritance, aliases and descriptor options",
 "Tests declare a few groups with one base class and one class per dataclass library; combinations of inheritance, reserved names, aliases and field kinds are not sampled.",
 [G, D, "src/psygnal/_dataclass_utils.py", "src/psygnal/_evented_decorator.py"], [("SignalGroup.__init_subclass__, __init__, __getitem__, __iter__", G), ("_build_dataclass_signal_group, SignalGroupDescriptor._create_group, is_evented, get_evented_namespace", D), ("iter_fields", "src/psygnal/_dataclass_utils.py")], ["names and signatures of a group's signals"])

prop("C26", "A weak callback calls, compares and dies like its callable",
 "The callback object made from a callable (function, method of any kind, builtin method, callable object or class, setattr or __setitem__, nested partials and curried functions of these) calls it with the bound arguments followed by the given ones cut to max_args, with the same result and effect; dereferencing gives an equivalent callable, and two callbacks are equal iff they are of the same function or method of the same object with equal bound arguments. It keeps no object alive (but plain functions, unless strong_func is false, and what cannot be weakly referenced, warning as asked); once the object died, it is dead: calls raise ReferenceError, dereferencing gives None, and finalize is called exactly once with it.",
 ["inputs", "histories"], "all kinds of callables, with any nesting of partials and curried functions, bound positional and keyword arguments, max_args, strong_func, on_ref_error and finalize, in any history of calls, comparisons and dropped objects",
 "Tests call about ten callables once each; what partials bind in which order, and which reference survives, depends on the combination.",
 [W], [("weak_callback and all WeakCallback subclasses", W)], ["results and effects of calls", "weakref.ref(obj)()", "finalize calls"])

prop("C27", "In Qt, a started timer delivers queued calls, a stopped one none",
 "After start_emitting_from_queue() on the Qt thread, every run of the event loop calls each call queued for this thread (by emissions from any other thread, to callbacks connected with thread=) exactly once, in order, on this thread; repeated starts only change interval and timer type. After stop_emitting_from_queue(), also from inside a callback, queued calls wait, none is lost, and emit_queued() or a new start delivers them; a failing callback loses no other queued call.",
 ["histories", "fault_sequences"], "all histories of starting (any interval and timer type), stopping, emitting from the Qt and other threads, running the event loop and draining by hand, with callbacks that raise, emit, stop or start the timer",
 "The test emits once from a thread with a started timer; stopping, restarting and failing callbacks are not combined with pending calls.",
 ["src/psygnal/qt.py", "src/psygnal/_queue.py"], [("start_emitting_from_queue, stop_emitting_from_queue", "src/psygnal/qt.py"), ("emit_queued", "src/psygnal/_queue.py")], ["calls during processEvents()"])

prop("C28", "An EventedModel class has the events its fields and configuration declare",
 "The group of an EventedModel has exactly one signal per mutable field of the class (inherited and redeclared ones included) and, where property setters are allowed, per property that has a setter (by its nearest definition), each with the declared type and the re-emission mode configured for it. Setting a field or property emits, besides its own event, those of exactly the declared (or guessed) dependents whose value changed. Contradictory configurations (unknown dependents, invalid modes, setters forbidden below a class that allows them) are refused, unknown dependencies warn, and two models of a class and its subclasses are equal iff all their fields are, however they were used before.",
 ["configurations", "histories"], "all class hierarchies (several bases, redeclared and frozen fields, overridden properties and computed fields) x configurations (also inherited) x histories of assignments and listeners",
 "The tests define a few fixed classes with one base and one dependent property each; the guarantee ranges over hierarchies, overriding and configurations.",
 [M], [("EventedMetaclass.__new__, _get_field_dependents", M), ("EventedModel._setattr_impl, __eq__", M)],
 ["events of models", "errors and warnings of class definitions", "=="])

prop("C29", "Nothing emitted, removed, replaced or dropped is kept alive",
 "Once the user holds it no longer, psygnal keeps no object alive: not the arguments of emissions that were delivered, blocked, reduced, drained or that failed, not disconnected callbacks and their targets, not items removed from, replaced in or moved out of evented containers (nor the containers by their items), not replaced values of fields of evented objects, not threads that are gone or loggers whose context was left; and an evented object that is dropped dies with its signals, group and connections, so that a new one starts without any. Only what waits (in a paused signal or a thread's queue) or is connected is held.",
 ["histories", "fault_sequences"], "all histories of connections, emissions (paused, blocked, queued, nested, monitored, failing), mutations of containers and assignments to evented objects, whatever is dropped at whatever point",
 "Tests check that a few kinds of weakly connected objects and evented objects die once; which internal record still holds something after which operation, in particular after errors, depends on the history.",
 [S, G, W, "src/psygnal/_queue.py", D, M, C, "src/psygnal/utils.py"],
 [("SignalInstance._run_emit_loop*, resume", S), ("_queue_for, emit_queued", "src/psygnal/_queue.py"), ("SignalGroupDescriptor._instance_map", D), ("EventedList._pre_remove, child connections", C), ("EventedModel._changes_queue", M), ("monitor_events", "src/psygnal/utils.py")],
 ["weakref.ref(obj)() after garbage collection", "len(signal)"])

prop("C30", "An EmitLoopError tells what failed, where and by which emission",
 "The message of every EmitLoopError names the signal (with the class of the object that has it), the type and text of the original exception, the line outside psygnal that emitted (or assigned, or resumed) and the one it was called from, the callback, the number of calls behind it and the line that raised, with its local variables (unless PSYGNAL_HIDE_LOCALS is set); how deeply the emission was nested in others of that signal, and for queued emissions their place in the queue and their arguments. Making it never fails, whatever str() and repr() of the values involved do.",
 ["inputs", "fault_sequences"], "all nestings of emissions x re-emission modes x ways to emit x call paths behind the callback x locations of the source x exceptions and variables",
 "Tests match the first words of the message for one callback; whether locations, depths and arguments are those of the failing emission depends on nesting, mode and call path.",
 ["src/psygnal/_exceptions.py", S, "src/psygnal/_queue.py"],
 [("EmitLoopError, _build_psygnal_exception_msg", "src/psygnal/_exceptions.py"), ("SignalInstance._run_emit_loop, emit_fast", S), ("emit_queued", "src/psygnal/_queue.py")],
 ["str(EmitLoopError)", "__cause__"])

prop("C31", "Threads sharing an evented object lose and repeat no change and never deadlock",
 "However the first and later accesses of .events, assignments (each field of each object by one thread at a time), connections and disconnections at fields and at the group, and drops of connected objects by several threads interleave: all threads get the same group of an object; each change of a field reaches every callback that is connected to the field or the group throughout, exactly once, as (new, old), the changes of a field in their order, and none that is not connected; the connections left at the end are those made and not removed; no interleaving of these operations deadlocks.",
 ["schedules", "histories"], "all interleavings at source lines, lock operations and callbacks of 2-3 threads with any of these operations on one or two objects of any kind of evented class",
 "Unit tests use evented objects from one thread; lost groups, lost or doubled changes and deadlocks between a group and its signals need particular interleavings.",
 ["src/psygnal/_group_descriptor.py", "src/psygnal/_group.py", S],
 [("SignalGroupDescriptor.__get__, evented_setattr", "src/psygnal/_group_descriptor.py"), ("SignalRelay", "src/psygnal/_group.py"), ("SignalInstance.connect, disconnect, _run_emit_loop", S)],
 ["obj.events", "evented", "SignalGroup.connect/disconnect"])

prop("C32", "A listener that raises or modifies the container leaves it consistent",
 "When a listener of an event of an EventedList, SelectableEventedList, EventedDict, evented set or Selection raises, the operation fails with an EmitLoopError, the content is what the events emitted so far say (unchanged if the event came before the step), children emit through the list iff they are in it, the selection and the current item stay in the list and active is the single selected item or None; and later operations and events are not affected. When a listener modifies the container after a single step, the outcome is that of both operations one after the other.",
 ["histories", "fault_sequences"], "all histories of container operations x the event at which a listener raises or modifies the container",
 "Tests have listeners that only record; a failing or reacting listener may stop an operation at every event it emits.",
 ["src/psygnal/containers/_evented_list.py", "src/psygnal/containers/_selectable_evented_list.py", "src/psygnal/containers/_selection.py", "src/psygnal/containers/_evented_dict.py", "src/psygnal/containers/_evented_set.py"],
 [("EventedList.insert, __setitem__, __delitem__, move", "src/psygnal/containers/_evented_list.py"), ("SelectableEventedList", "src/psygnal/containers/_selectable_evented_list.py"), ("Selection._emit_change, _batched, _update_active", "src/psygnal/containers/_selection.py"), ("EventedDict.__setitem__, __delitem__", "src/psygnal/containers/_evented_dict.py"), ("EventedSet", "src/psygnal/containers/_evented_set.py")],
 ["EventedList", "EventedDict", "EventedSet", "SelectableEventedList", "EmitLoopError"])

prop("C33", "decompile() hides exactly the compiled modules, recompile() restores them",
 "Whatever files are in and beside the installed package and from wherever it is called: decompile() renames every compiled module (.so, .pyd, with any ABI tag, in any directory of the package) so that Python loads it no more, and recompile() gives every one hidden its name back; no content is changed or lost, no other file inside or outside the package is touched, repeating either changes nothing, and recompile() after decompile() leaves the tree as it was.",
 ["inputs", "histories"], "all trees of compiled, hidden and other files in and around the package x all histories of decompile, recompile and new or removed modules",
 "The test runs where nothing is compiled, so that the two functions find no file at all; which files they match depends on suffixes, directories and what was hidden before.",
 ["src/psygnal/utils.py"],
 [("decompile, recompile", "src/psygnal/utils.py")],
 ["psygnal.utils.decompile", "psygnal.utils.recompile"])

prop("C34", "psygnal neither needs nor loads a package the program does not use",
 "With any of the optional packages (pydantic, numpy, attrs, msgspec, wrapt, toolz, dask, Qt bindings, typing_extensions, mypy_extensions) missing, psygnal can be imported and everything that does not need a missing one behaves as it does when all are there, whatever packages the program loads and when; only EventedModel, object proxies and psygnal.qt need one, and without it they fail with an ImportError, leaving the rest usable. Importing and using psygnal loads no third-party package that the program did not ask for.",
 ["inputs", "histories"], "all subsets of missing packages x all subsets and moments of packages loaded by the program x all programs using psygnal",
 "The tests run in one environment where all optional packages are installed and loaded, so that an import too many, or a use that is not guarded, cannot fail there.",
 ["src/psygnal/__init__.py", "src/psygnal/_dataclass_utils.py", "src/psygnal/_group_descriptor.py", "src/psygnal/_weak_callback.py", "src/psygnal/_mypyc.py", "src/psygnal/containers/__init__.py", "src/psygnal/qt.py"],
 [("sys.modules lookups", "src/psygnal/_dataclass_utils.py"), ("_check_field_equality, _pick_equality_operator", "src/psygnal/_group_descriptor.py"), ("_is_toolz_curry", "src/psygnal/_weak_callback.py"), ("__getattr__", "src/psygnal/containers/__init__.py"), ("mypyc_attr", "src/psygnal/_mypyc.py")],
 ["import psygnal", "psygnal.containers", "psygnal.qt", "EventedModel"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
