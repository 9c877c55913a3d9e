"""Regenerates /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/v8serialize/"
ENC, DEC, REF, CON, EXT = S+"encode.py", S+"decode.py", S+"_references.py", S+"constants.py", S+"extensions.py"
J = S+"jstypes/"

p("C01", "A message that arrives intact decodes to the value that was sent",
  "Whatever supported Python value a sender serializes, a receiver that obtains those bytes intact decodes a value equal to it under the documented type mapping: every element, key, property, number (including negative zero, NaN and the exact integer), string, byte, hole, regular expression and error field, in the same order. This holds no matter how the bytes were split, delayed, duplicated, reordered among other messages, stored and re-read after a crash, or handed over in whichever bytes-like object or file, and decoding the same bytes again gives an equal value again.",
  ["inputs", "fault_sequences", "histories"],
  "All supported value graphs (sizes and encodings across every length/offset boundary) times all delivery histories of a lossy, duplicating, reordering, crashing transport into shared encoders and decoders.",
  "The hypothesis round-trip tests draw small isolated values into a fresh codec each time; they never run a long history of messages through one shared configuration, never use several input buffer types, and their strategies skip combinations (e.g. 0.0 next to -0.0, equal-but-differently-typed hashable containers) and large lengths.",
  [ENC, DEC, J+"jsobject.py", J+"jsarray.py", J+"jsmap.py", J+"jsset.py", J+"jsbuffers.py", J+"jserror.py", J+"jsregexp.py"],
  [("dumps / Encoder.encode / WritableTagStream.write_*", ENC), ("loads / Decoder.decode(s) / ReadableTagStream.read_*", DEC), ("TagWriter.encode dispatch", ENC), ("TagReader.deserialize_*", DEC)],
  state="none between calls", observe="loads()/Decoder.decode() result at the receiving peer")

p("C02", "Shared references and cycles arrive with exactly the sender's identity shape",
  "If two places in a serialized graph held the same container, buffer, view, error or other object, the corresponding places in the decoded graph hold one and the same object; if they held two distinct mutable objects, the decoded places hold two distinct objects, however similar their contents. This includes cycles of any length and any mix of object kinds, wherever in the message the repeated object occurs.",
  ["inputs", "histories", "fault_sequences"],
  "All object graphs with sharing and cycles, over every ordering of object kinds that take or do not take a position in the stream's object numbering, with temporaries created and destroyed by conversion steps while the message is written.",
  "Tests cover a handful of hand-written cycles and hypothesis graphs that rarely put a back reference after a regular expression, error, shared buffer or host object; object-numbering drift and address reuse only show on particular sequences.",
  [REF, ENC, DEC], [("SerializedObjectLog.record_reference", REF), ("serialize_object_references / deduplicate", ENC), ("read_object_reference", DEC)],
  state="per-message object log", observe="identity relation (is) over the decoded graph")

p("C03", "V8 peers and this library understand each other's messages",
  "Data written by any V8/Node.js peer using wire format 13, 14 or 15 (any string representation and alignment padding, dense and sparse arrays, both error layouts, Node.js buffer views, back references to any earlier object) decodes to the value the peer had, with the peer's reference identity. Data this library writes is read by a V8 peer as the value that was sent: same JavaScript types (number versus bigint, array versus object, map versus object), same contents and order, same reference identity, two-byte strings aligned.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "All value graphs expressible on either side, over all wire versions and writer representation choices a V8 peer may make, in mixed-version meshes with faulty delivery.",
  "Tests hold a few captured byte strings and otherwise round-trip against themselves, so an error made symmetrically in reader and writer is invisible; interop tests need a network service and do not run here.",
  [ENC, DEC, REF, EXT, CON], [("WritableTagStream", ENC), ("ReadableTagStream", DEC), ("NodeJsArrayBufferViewHostObjectHandler", EXT)],
  observe="value seen by an independent model of V8's ValueSerializer/ValueDeserializer on the other end")

p("C04", "Damaged data yields a value or a decode error, in bounded work, and nothing else",
  "Decoding arbitrary bytes with the default or Node.js options, however they were corrupted, spliced, or forged, either returns a value or raises the library's documented decode error; no other exception type (index, type, overflow, assertion, value, memory, or recursion errors) reaches the caller. The work and memory spent is bounded by the size of the input, not by length fields stored inside it.",
  ["inputs", "fault_sequences"],
  "All byte strings reachable by storage and network faults (bit flips, lost/duplicated/reordered/torn sectors, splices of two messages, stale tails, forged lengths) from valid messages, plus arbitrary ones.",
  "Tests check about a dozen hand-made malformed inputs; the reachable set of damaged messages is unbounded and each tag has its own validation path.",
  [DEC, EXT, REF, J+"jsbuffers.py", CON, J+"jsregexp.py"], [("ReadableTagStream.ensure_capacity/throw/read_*", DEC), ("TagReader.deserialize_*", DEC), ("from_bytes bounds checks", J+"jsbuffers.py")],
  observe="exception type escaping loads(); step counter; peak allocation")

p("C05", "A message cut short is always rejected",
  "If a complete message is cut at any earlier byte — a torn write, a crash before the final flush, an early EOF, a short read — decoding the remainder raises the documented decode error rather than returning a value. (The only exception is the format's own ambiguity: a cut exactly between an outermost array buffer and its view leaves a complete buffer.)",
  ["crash_points", "inputs"],
  "Every byte position of every message of every kind of value at which a writer may crash or a reader may hit EOF.",
  "Tests try a few truncations of a couple of tags; each tag's final field has its own end-of-data check and Python slices past the end do not fail by themselves.",
  [DEC, EXT], [("ensure_capacity / read_varint / read_bytes", DEC), ("read_js_array_buffer", DEC), ("deserialize_host_object", EXT)],
  observe="loads(prefix)")

p("C06", "A sender never emits what its oldest configured reader cannot read",
  "With features or a minimum V8 version selected, serialization only uses encodings readable by every V8 release at or above that minimum: resizable buffers and views over them, self-referential error causes and half-float arrays appear only when the corresponding feature is enabled, and otherwise the value is downgraded as documented or the call is refused with the documented error. Enabling a feature never makes a value that was encodable before unreadable to readers having that feature.",
  ["configurations", "inputs", "histories"],
  "All feature sets and V8 versions over rolling upgrades of a mixed-version mesh, times all value graphs with feature-dependent parts in any position.",
  "Tests check each feature against one or two isolated values; combinations in nested positions and mid-rollout configurations are not explored.",
  [ENC, CON, S+"_versions.py"], [("SerializationFeature.supported_by", CON), ("WritableTagStream.features checks", ENC), ("record_acyclic_reference", REF)],
  observe="an independent reader restricted to each V8 release's feature set")

p("C07", "A failed call leaves no trace in later calls",
  "When a serialization or deserialization call fails part-way — a conversion step, iterator, host-object handler, container or reader raises, the value is unsupported, the input is damaged, memory or stack runs out, or the call is interrupted — the caller sees that failure, and every later or enclosing use of the same encoder, decoder, conversion steps, and value graph gives the same result as if the failed call had never been made. An error raised by user code is propagated unchanged rather than swallowed or turned into a wrong result.",
  ["fault_sequences", "crash_points", "histories"],
  "Every point inside a call at which a callback, allocation, or interrupt can fail, for every value graph and every history of later calls on the same objects, including nested calls made from callbacks.",
  "Tests make each failing call on a fresh codec and check only the exception; they never reuse the configuration or nest calls after a failure at an arbitrary internal point.",
  [ENC, DEC, REF, S+"_decorators.py"], [("Encoder/Decoder/default steps shared across calls", ENC), ("constrain_tags context manager", ENC), ("record_acyclic_reference", REF), ("singledispatchmethod", S+"_decorators.py")],
  state="module-level default steps, dispatch caches", observe="exception identity, then bytes/values of subsequent calls versus fresh-process results")

p("C08", "Concurrent calls on shared configuration behave as if each ran alone",
  "Any number of threads may use the same encoder, decoder, conversion steps and module-level functions at once; under every interleaving each call returns exactly the bytes or value it would return running alone. Threads may also serialize the same unchanging value graph at the same time.",
  ["schedules", "inputs"],
  "All interleavings, at bytecode granularity, of concurrent encode/decode calls that share configuration objects and read-only graphs.",
  "The test suite is single-threaded.",
  [ENC, DEC, S+"_decorators.py", CON, EXT], [("default_encode_steps / default_decode_steps singletons", ENC), ("TagReaderRegistry, lru_cache enum lookups", DEC), ("singledispatchmethod cache", S+"_decorators.py")],
  observe="per-call results against the sequential baseline")

p("C09", "Comparing and printing self-referential values is safe from any thread",
  "Comparing (==) or printing (repr) JavaScript-like objects, arrays, maps, sets and errors that contain themselves terminates and gives the same answer no matter what other threads are comparing or printing at the same time, including the very same objects. Values are never equal if something reachable in one differs from what is reached the same way in the other. The answer is also the same after an earlier comparison or print of those objects failed because an element raised, memory ran out or the stack ran out.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of comparisons and prints over cyclic graphs shared between threads, with failures injected inside any element's comparison or print.",
  "Tests compare and print cyclic values from one thread, never after a failure inside a comparison.",
  [S+"_recursive_eq.py", J+"_repr.py", J+"jsobject.py", J+"jsmap.py", J+"jsset.py", J+"jserror.py"],
  [("process-global set of running comparisons", S+"_recursive_eq.py"), ("process-global set of running reprs", J+"_repr.py")],
  state="process-global in-progress sets", observe="result of == / repr() per call against the isolated result")

p("C10", "Print settings are scoped: restored on exit, never lost or leaked",
  "Inside a print-settings block, printing uses that block's settings; when the block ends — normally or through an exception — the settings that were active when it began are active again. If someone else changed the settings inside the block and has not restored them, the block leaves them in place and warns, or, when forced, restores its own initial settings without warning.",
  ["histories", "fault_sequences"],
  "All histories of settings blocks opened and closed by several actors in any order, nested or overlapping, with failures at any point.",
  "Tests check single nestings and one overlap.",
  [J+"_repr.py"], [("js_repr_settings context manager over the module-global active settings", J+"_repr.py")],
  state="module-global active settings", observe="repr() output and warnings after each event")

p("C11", "Buffers and their views stay byte-accurate through resizes and borrowers",
  "After any history of resizing, reading and writing through any number of overlapping views by any number of holders, every view exposes exactly the bytes JavaScript's rules give it: a fixed view that no longer fits is empty with offset zero and comes back when the buffer grows again, a length-tracking view covers the largest whole number of elements, grown bytes are zero, writes through one view are seen by all. A refused operation (limit exceeded, not resizable, memory borrowed, readonly, value or position out of range) changes nothing and keeps no memory borrowed, and at any moment the buffer and its views serialize and decode to the same bytes, offsets and lengths.",
  ["histories", "fault_sequences", "crash_points"],
  "All histories of resize/read/write/export/release/serialize operations by several holders over buffers of every kind, with borrowed memory making operations fail.",
  "Tests check individual constructor and resize cases, not histories with several holders and failing operations.",
  [J+"jsbuffers.py", ENC, DEC], [("JSArrayBuffer.resize", J+"jsbuffers.py"), ("JSArrayBufferView range computation", J+"jsbuffers.py"), ("write_js_array_buffer(_view)", ENC)],
  state="buffer bytes and limits", observe="view bytes, offsets, lengths; serialized form")

p("C12", "JavaScript-like objects and arrays behave as one ordered property table",
  "Under any history of insertions, deletions, bulk updates, resizes and array edits — including ones that fail half-way because the source of an update raised — an object or array behaves like the JavaScript one: integer-like keys in any spelling address array elements, iteration yields ascending indexes then string keys in insertion order, lengths, element counts, holes and lookups agree with each other, and dense and sparse storage are indistinguishable. A failed operation leaves exactly the effects of the steps completed before it.",
  ["histories", "fault_sequences", "inputs"],
  "All operation histories across the dense/sparse switching thresholds and up to the maximum array length, with faults inside update sources.",
  "Stateful tests drive array storage alone with small indexes and no failures; the object-level table, storage switching and failed updates are checked by examples only.",
  [J+"jsobject.py", J+"jsarray.py", J+"jsarrayproperties.py", J+"_normalise_property_key.py"],
  [("storage switch", J+"jsobject.py"), ("cached sorted keys / element counts", J+"jsarrayproperties.py")],
  state="element storage, cached counts and key order", observe="every public read after each step versus a reference property table")

p("C13", "JavaScript-like maps and sets follow same-value-zero under any history",
  "Under any history of operations, including bulk updates whose source fails half-way, maps and sets keep at most one entry per same-value-zero class (numbers and strings by value, NaN equal to itself, zero equal to negative zero, booleans distinct from numbers, every other object by identity), iterate in first-insertion order, and never confuse a live member with a different object that reuses the memory of a discarded one. A failed bulk update leaves exactly the entries inserted before the failure. At every point of a history two tables of one kind are equal exactly when the lists of their items are, and a table equals a plain dict, other mapping or set as if it were one.",
  ["histories", "fault_sequences", "inputs"],
  "All operation histories over keys of every class with objects created and destroyed between operations, with faults inside update sources.",
  "Tests exercise single operations with live objects; memory reuse and failing updates need histories.",
  [J+"jsmap.py", J+"jsset.py", J+"_equality.py"], [("same_value_zero keying by id()", J+"_equality.py"), ("JSMap.update / JSSet.__ior__", J+"jsmap.py")],
  state="entry table", observe="every public read after each step versus a reference table")

p("C14", "A value changed while being serialized never produces a malformed message",
  "If any part of a value is mutated by someone else (another thread, or a callback) while it is being serialized, the call either raises or returns a well-formed message that decodes; the decoded value contains only data that was present at some moment during the call, and a single byte buffer is captured with a length that matches its bytes.",
  ["schedules", "histories"],
  "All interleavings of a serialization with mutations (append, remove, replace, resize, clear) of every mutable kind in the graph.",
  "No test mutates a value during serialization.",
  [ENC, J+"jsobject.py", J+"jsarrayproperties.py", J+"jsbuffers.py"], [("element-count check in dense arrays", ENC), ("live iteration of maps/sets/objects", ENC), ("memoryview held while copying buffers", ENC)],
  observe="outcome of the call; decode of the produced bytes")

p("C15", "Instants survive transfer between machines with different clocks and zones",
  "A date serialized on one machine and decoded on another denotes the same instant to within a millisecond (exactly the same, if it is a whole number of milliseconds, and between Python processes to the microsecond, as far as the double that carries it allows), whatever time zones (including daylight-saving gaps and folds) the two processes and the decoder are set to and however a process's zone changes between messages; a decoder with a configured zone always returns an aware date in that zone, and one without returns the receiver's local time.",
  ["configurations", "histories", "inputs"],
  "All instants representable on both sides, over process time-zone settings that change during the history of messages on both ends.",
  "Tests run in one fixed process zone and avoid ambiguous local times.",
  [ENC, DEC], [("write_js_date", ENC), ("read_js_date / default_timezone", DEC)],
  observe="instant (epoch) of the decoded date at the receiving node under its zone")

p("C16", "Decoded values and encoded bytes are independent of the buffers they came from",
  "Reusing, overwriting, resizing or releasing the input buffer after decoding never changes a decoded value, decoding never modifies or keeps hold of the input, and mutating a value after serializing it never changes the bytes already produced nor does changing those bytes change the value. Values decoded from the same bytes twice share no mutable state.",
  ["histories", "inputs", "fault_sequences"],
  "All histories in which receive buffers are recycled, resized and released between and after decodes, for every kind of value and every input buffer type.",
  "Tests decode from immutable bytes and drop them.",
  [DEC, EXT, J+"jsbuffers.py", ENC], [("buffer copy in JSArrayBuffer", J+"jsbuffers.py"), ("read_js_array_buffer memoryview slices", DEC), ("host object slices", EXT)],
  observe="decoded value before and after the receive buffer is recycled")

p("C17", "Custom conversion steps see every value, in order, and compose",
  "While serializing, every value in the graph (nested elements, keys, causes) is offered to the configured steps in order, and while deserializing every item is; a step that handles it, substitutes it, delegates it, or refuses it does so for that item alone, with later steps seeing exactly what was delegated. When no step accepts an item the documented error naming that value or tag is raised and nothing is silently dropped.",
  ["programs", "fault_sequences", "inputs"],
  "All pipelines of handling, substituting, delegating, refusing and failing steps, over all value graphs.",
  "Tests use one or two fixed custom steps.",
  [ENC, DEC], [("DefaultEncodeContext step chain", ENC), ("DefaultDecodeContext step chain", DEC), ("TagReader options and registry overrides", DEC)],
  observe="call log of the steps and the resulting bytes/value")

# properties with no schedule, clock, fault or history in them
p("C18", "Nothing the caller has dropped is kept alive, and repetition does not grow",
  "Once a call has finished - serializing, deserializing, comparing, printing, converting or editing a container, normally or by any failure whose error has been dropped - the library holds no reference to anything the caller handed over or got back: values, their classes, steps, handlers, factories, readers, buffers and errors can be collected as soon as the caller drops them, although the encoders, decoders and containers used live on, and memory that was lent can be resized again. A JavaScript-like object, array, map or set holds exactly the members it shows: an entry that was deleted, replaced, popped, cleared or cut off by a shorter length is released, and one that is shown is never lost. Doing the same thing again and again does not make the process grow without bound.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of calls on long-lived encoders, decoders and containers, with calls failing in any of their callbacks or at any point through memory, stack or interrupts, and garbage collected at any point between.",
  "Retention is invisible to assertions about results: tests look at values, not at what still refers to them, and a leak that needs a failed call or a removed member shows only in a long-running process.",
  [ENC, DEC, REF, J+"jsmap.py", J+"jsset.py", J+"jsobject.py", J+"jsarrayproperties.py", J+"_equality.py", S+"_recursive_eq.py", J+"_repr.py", J+"jsbuffers.py"],
  [("Encoder.encode / DefaultEncodeContext", ENC), ("Decoder.decode(s) / DefaultDecodeContext", DEC), ("same_value_zero", J+"_equality.py"), ("DenseArrayProperties / SparseArrayProperties", J+"jsarrayproperties.py")],
  state="what the library can reach between calls", observe="weak references to everything handed over, after a garbage collection")

p("N01", "Property keys normalise as in ECMAScript",
  "Any spelling of an array index (int, integral float, canonical decimal string) maps to the same element and every other key maps to its JavaScript string form.",
  ["inputs"], "All ints, floats and strings.", "Examples and small hypothesis ranges only.",
  [J+"_normalise_property_key.py"], [("normalise_property_key", J+"_normalise_property_key.py")])
p("N02", "Version strings order and parse consistently with V8 releases",
  "Every V8 version string, with or without an embedder suffix, parses to a version that orders as the release order, and the features reported for it grow monotonically with the version.",
  ["inputs"], "All version strings.", "A few examples.",
  [S+"_versions.py", CON], [("parse_lenient_version", S+"_versions.py"), ("supported_by", CON)])
p("N03", "Regular-expression flags convert consistently between Python and JavaScript",
  "Converting a Python pattern to a JavaScript regular expression and back preserves source and every flag both languages share, and refuses flags that have no counterpart.",
  ["inputs"], "All patterns and flag combinations.", "Examples only.",
  [J+"jsregexp.py", CON], [("from_python_pattern / as_python_pattern", J+"jsregexp.py")])
p("N04", "Python exceptions are rendered as V8-style stacks without losing frames",
  "The stack text produced for any Python exception names its type and message and lists every frame innermost-first in V8's layout.",
  ["inputs"], "All exceptions and tracebacks.", "Snapshot examples only.",
  [J+"_v8traceback.py", J+"jserror.py"], [("format_exception_for_v8", J+"_v8traceback.py")])
p("N05", "The public type surface matches its static types",
  "Every documented protocol is satisfied by the classes said to implement it and the annotations agree with runtime behaviour.",
  ["programs"], "All user programs.", "Static typing is checked by mypy only in upstream CI.",
  [S+"_typing.py", S+"_values.py"], [("protocols", S+"_typing.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
