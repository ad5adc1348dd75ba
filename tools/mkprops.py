"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PK, UP, UT, HD, BE, TG = ("jsonpickle/pickler.py", "jsonpickle/unpickler.py", "jsonpickle/util.py",
                          "jsonpickle/handlers.py", "jsonpickle/backend.py", "jsonpickle/tags.py")

p("C01", "Plain data round-trips exactly",
  "For every tree built from None, bool, int, finite float, str, bytes, bytearray, list, tuple, set and dict (string keys that are not one of the library's reserved tag names and do not start with its encoded-key prefix), decoding the encoded text gives an equal value with the same type at every position, the same element order in sequences and the same member order in dicts. "
  "This holds with base64 or base85 byte encoding and with key encoding on or off on both sides.",
  ["inputs", "configurations"], "all plain-data trees of any size and nesting, every combination of base85 and keys",
  "Tests round-trip a few dozen fixed literals; the claim is for every tree and every place a type can occur inside another, under each option.",
  [PK, UP, TG, UT], [("type dispatch when flattening", "pickler.Pickler._flatten_impl/_get_flattener"), ("tag dispatch when restoring", "unpickler.Unpickler._restore_tags"), ("byte codecs", "util.b64encode/b85encode and inverses")],
  observe=["jsonpickle.encode", "jsonpickle.decode"])

p("C02", "Shared and cyclic references keep object identity",
  "For every graph of lists, dicts and instances (linked through list items, dict values and instance attributes, including container subclasses and instances rebuilt through reduce with an attribute dict as state), two positions of the decoded graph hold the same object exactly when the two positions of the original did. "
  "Cycles of any shape are restored as cycles and no placeholder object is left in the result.",
  ["inputs"], "all finite object graphs over these link kinds, sharing and cycles anywhere",
  "Reference numbers are assigned independently by the encoder and the decoder while they walk; one missed or extra registration in any branch shifts every later reference. Tests contain a handful of small graphs.",
  [PK, UP], [("numbering while flattening", "pickler.Pickler._log_ref/_mkref/_getref"), ("numbering while restoring", "unpickler.Unpickler._mkref/_swapref/_restore_id"), ("placeholders", "unpickler._Proxy, Unpickler._swap_proxies")],
  state=[("id table (encoder)", "Pickler._objs"), ("object list (decoder)", "Unpickler._objs/_obj_to_idx/_proxies")])

p("C03", "Instances keep their class and attributes",
  "For every instance of an importable class that uses the default pickling behaviour and stores its state either in an instance dict or in slots (at least one of them set), (frozen) dataclasses included, the decoded object has the same class and exactly the same attributes with round-tripped values, without its constructor being run. "
  "Attributes the class lists for exclusion, and slots that are unset, are the only ones missing; names beginning with two underscores that Python did not mangle and values that are themselves functions, methods or classes are outside the claim.",
  ["inputs", "programs"], "all classes of these layouts (including inheritance of slots, private names) and all attribute values",
  "Tests use a fixed set of classes; the claim ranges over attribute names, numbers of attributes, inheritance layouts and exclusion lists.",
  [PK, UP, UT], [("attribute collection", "pickler.Pickler._flatten_dict_obj/_flatten_newstyle_with_slots/_flatten_obj_attrs"), ("attribute restoration", "unpickler.Unpickler._restore_from_dict/_restore_object_instance")])

p("C04", "Pickle protocol hooks are honoured in both directions",
  "An object that is not itself a container and whose class defines state hooks (giving a non-empty state), constructor-argument hooks or a reduce hook (tuples of two to six elements, with state, list items, dict items or a state setter) is rebuilt by exactly the calls the pickle protocol prescribes with round-tripped arguments: constructor or factory first, then the state once, then list items in order, then dict items. "
  "An object without a state setter hook gets its dict state (or dict-and-slots pair) as attributes.",
  ["inputs", "programs"], "all combinations of hooks and all hook results",
  "Tests cover individual hooks with one class each; combinations and the order and number of calls are not enumerated.",
  [PK, UP, UT], [("hook detection", "util.has_reduce/has_method, pickler.Pickler._flatten_obj_instance"), ("replay", "unpickler.Unpickler._restore_reduce/_restore_state/_restore_object_instance")])

p("C05", "Dictionary keys survive with key encoding on",
  "With key encoding on for both sides, every dict whose keys are hashable round-trippable values - numbers, None, tuples, instances, strings that look like encoded keys and strings equal to reserved tag names - is restored with equal keys of the same type, each mapped to its own value, and references shared between keys and values keep their identity. "
  "With key encoding off, None becomes the key \"null\", other non-string keys become their repr text, string keys are unchanged.",
  ["inputs"], "all dicts over such keys, any mixture and order of key kinds",
  "The two-phase walk must number references in the same order on both sides for every mixture of key kinds; tests have a few homogeneous dicts.",
  [PK, UP, TG], [("two-phase encode", "pickler.Pickler._flatten_dict_obj/_flatten_string_key_value_pair/_flatten_non_string_key_value_pair/_escape_key"), ("two-phase decode", "unpickler.Unpickler._restore_dict/_restore_pickled_key")])

p("C06", "Container subclasses keep items and attributes",
  "Instances of subclasses of dict, list and set, named tuples, ordered dicts, counters, default dicts (including nested ones; factories that are classes or functions) and deques round-trip with the same class, the same items in the same order, the same extra instance attributes (for subclasses of dict, list and set) and default factories that give equal fresh values.",
  ["inputs", "programs"], "all such classes and contents",
  "Each container kind takes a different branch on both sides, with items and attributes interleaved in one JSON object; tests fix small contents.",
  [PK, UP, UT], [("container branches", "pickler.Pickler._flatten_dict_obj/_flatten_sequence_obj"), ("container rebuild", "unpickler.Unpickler._restore_object_instance_variables/_loadfactory/_restore_from_dict")])

p("C07", "Everything flattened is representable as JSON",
  "Whatever object graph is given (within the supported kinds, with default handlers; free of cycles when references are switched off by unpicklable=False) and whichever encode options are set, other than those that explicitly delegate to the JSON library (decimal and numeric-key pass-through, property inclusion), the flattened form consists only of dicts with string keys, lists or tuples, strings, numbers, booleans and null, so every standard JSON library can write it.",
  ["inputs", "configurations"], "all object graphs and option combinations",
  "A single branch that leaks a raw object only fails for inputs that reach the branch; tests reach each with one or two objects.",
  [PK, HD, UT], [("flattening", "pickler.Pickler._flatten and callees"), ("handlers", "handlers.*Handler.flatten")])

p("C08", "Non-unpicklable output carries no Python markers",
  "With unpicklable=False, for every acyclic graph of plain data (no bytes), instances with dict, slots or own state, subclasses of list, set, dict and tuple, named tuples, ordered dicts, counters and library values with built-in handlers (dates, UUIDs, regular expressions, arrays, queues, locks), the output contains no class, reference, reduce, state, tuple, set or sequence marker: instances become objects of their attributes, tuples and sets become arrays, dates become ISO text. "
  "Decoding that text yields only plain lists, dicts and scalars.",
  ["inputs"], "all such graphs, including repeated occurrences of one object",
  "Every flatten branch separately checks the option; tests look at a few outputs.",
  [PK, HD], [("option checks", "pickler.Pickler._flatten_obj_instance/_get_flattener/_getstate/_flatten_sequence_obj/_ref_obj_instance")])

p("C09", "Depth and iteration limits are exact",
  "With references on, max_depth=n makes every value nested exactly n container or instance levels below the root appear as its repr text, every shallower value is encoded in full exactly as without the limit, and scalars and enum members are never replaced. "
  "max_iter=n makes an encoded generator, or iterator without a reduce hook of its own, record exactly its first n items (fewer only if it ends earlier), and without the limit all items are recorded.",
  ["inputs", "configurations"], "all trees, all depths, all iterator lengths and limits",
  "The current depth is a counter kept across every recursive branch; a missed step in one branch only shows at particular nestings.",
  [PK], [("depth counter", "pickler.Pickler._push/_pop/_max_reached/_flatten_impl"), ("iterator cut", "pickler.Pickler._flatten_obj_instance")],
  state=[("depth", "Pickler._depth")])

p("C10", "fail_safe replaces exactly the failing object",
  "When a fail_safe function is given and flattening some object raises an ordinary exception, the function is called once with that exception, its (scalar) return value stands in for that object, and everything else in the graph is encoded as if the failing object had been replaced beforehand. "
  "KeyboardInterrupt and SystemExit always propagate, and without fail_safe every exception propagates unchanged.",
  ["fault_sequences", "inputs"], "every position at which user code can raise, every exception type, any number of failures",
  "The tests of this option are not even collected by the runner; faults at every position are out of reach of examples.",
  [PK], [("catch", "pickler.Pickler._flatten_obj")])

p("C11", "Encoding and decoding are pure and history-independent",
  "Encoding never modifies the object graph it is given and decoding a parsed structure gives the same result each time (unless sorted keys were requested from the backend). "
  "A Pickler or Unpickler that is reused with its default reset gives, after any sequence of earlier successful or failed uses, the same result as a fresh one.",
  ["histories", "inputs"], "all graphs; all sequences of uses, including uses that raised half way",
  "Leaked state shows only for specific earlier histories; tests build a fresh object per call.",
  [PK, UP], [("state reset", "pickler.Pickler.reset/_pop/flatten, unpickler.Unpickler.reset/restore"), ("cache", "Pickler._flattened")],
  state=[("encoder state", "Pickler._objs/_depth/_seen/_flattened"), ("decoder state", "Unpickler._objs/_obj_to_idx/_namedict/_namestack/_proxies/_classes")])

p("C12", "Safe mode never evaluates text from the document",
  "With the default safe mode, no JSON document of any shape makes the decoder evaluate or execute text taken from it as Python source; a legacy repr entry, anywhere in the document, is resolved by importing the named module and following attribute names only. "
  "The evaluating behaviour is reachable only when the caller passes safe=False, and the caller's choice reaches every nested decode, including encoded keys.",
  ["inputs", "configurations"], "all JSON documents and option combinations",
  "A negative claim over every document; tests try one or two.",
  [UP], [("repr dispatch", "unpickler.Unpickler._restore_tags"), ("evaluation", "unpickler.loadrepr/_loadmodule"), ("nested decode", "unpickler.Unpickler._restore_pickled_key, unpickler.decode")])

p("C13", "Malformed tag payloads never raise",
  "A document in which a tuple, set, iterator, byte-string, byte-array, reference or reduce entry has a payload of the wrong JSON type (a number, boolean or null where an array is needed, anything but a string for bytes, anything but an integer for a reference, no callable for reduce), undecodable bytes text or a reference number no object has (standing alone or as a list item, dict value or attribute) is still decoded without an exception: the entry becomes the empty value of its kind (empty tuple, set, iterator, bytes or list, or None). "
  "The rest of the document is restored as usual.",
  ["inputs"], "all payload values of wrong type or content, at any position",
  "Robustness over arbitrary documents; tests hold a few regression inputs.",
  [UP, UT], [("guards", "unpickler.Unpickler._restore_tuple/_restore_set/_restore_iterator/_restore_base64/_restore_base85/_restore_id/_restore_reduce"), ("codecs", "util.b64decode/b85decode")])

p("C14", "Missing classes follow on_missing; given classes win",
  "When the class named by an object entry cannot be loaded, the entry is returned as its dict and on_missing decides exactly one reaction per occurrence: nothing, one warning, ClassNotFoundError, or one call of the given function with the class name. "
  "Classes passed to decode (single class, list, tuple, set or name-to-class dict) are used for their names in preference to importing, and only for that call.",
  ["inputs", "configurations"], "all class names, on_missing values and forms of the classes argument",
  "Tests fix one missing name and few argument forms.",
  [UP, UT], [("reaction", "unpickler.Unpickler._process_missing/_restore_object"), ("class table", "unpickler.Unpickler.register_classes, util.loadclass")])

p("C15", "Handler registry lookup is exact and reversible",
  "After any sequence of registrations and unregistrations, looking up a class or its qualified name (names being distinct) gives the handler most recently registered for it and not since unregistered, otherwise, for a class, some handler registered with base=True for one of its superclasses, otherwise the caller's default; unregistering a class removes everything its registration added and nothing else. "
  "Registering anything that is not a class raises TypeError, and encoding and decoding of an object both go to the handler found for its class.",
  ["histories", "inputs"], "all sequences of register/unregister calls and all lookups",
  "The handler tests are not collected by the runner; histories are unbounded.",
  [HD, PK, UP], [("registry", "handlers.Registry.get/register/unregister"), ("dispatch", "pickler.Pickler._flatten_obj_instance, unpickler.Unpickler._restore_object")],
  state=[("tables", "Registry._handlers/_base_handlers")])

p("C16", "handler_context reaches exactly the handlers that accept it",
  "A handler_context given to encode or decode (or to a supplied Pickler or Unpickler) is passed, as the identical object, to every custom handler call in that operation whose method names such a parameter (positional-or-keyword, keyword-only); methods that do not name it are called without it, and when no context is given no handler receives one. "
  "A context given to one operation does not leak into handlers of an operation that uses a fresh context.",
  ["configurations", "programs"], "all handler signatures and nestings, both directions",
  "Depends on signature inspection of arbitrary user methods and on nesting; tests use two handlers.",
  [PK, UP, HD], [("call sites", "pickler.Pickler._call_handler_flatten, unpickler.Unpickler._call_handler_restore"), ("inspection", "handlers.handler_accepts_handler_context")])

p("C17", "Backends: preference order, per-backend options, fallthrough",
  "After any sequence of load, remove, set-preferred and set-options calls, encoding and decoding use the first backend in preference order with exactly the options set for that backend; on failure (when decoding: with the backend's declared decode error) the error propagates when fallthrough is off, otherwise the next backend is tried and only when all have failed does the last error propagate. "
  "Removing or setting options of a backend never affects another, setting a preferred backend that is not loaded raises AssertionError, and with nothing usable encoding and decoding raise instead of returning nothing.",
  ["histories", "fault_sequences", "configurations"], "all sequences of configuration calls, all patterns of backend failures",
  "The backend tests are not collected by the runner; the state space is all configuration histories times failure patterns.",
  [BE], [("selection", "backend.JSONBackend.encode/decode/backend_encode/backend_decode"), ("configuration", "backend.JSONBackend.load_backend/remove_backend/set_preferred_backend/set_encoder_options/set_decoder_options/enable_fallthrough")],
  state=[("tables", "JSONBackend._backend_names/_encoders/_decoders/_encoder_options/_decoder_options/_verified")])

p("C18", "Standard-library values with built-in handlers round-trip",
  "Every date, time, datetime (any timezone; fold kept), timedelta, compiled text or bytes regular expression with any flags, UUID, array of any type code, decimal, fraction, complex number, enum member, range, deque and similar standard value decodes to an equal value of the same type; queues decode to an empty queue and locks keep whether they were held.",
  ["inputs"], "all values of these types",
  "Tests encode a few constants per type.",
  [HD, PK, UP], [("handlers", "handlers.DatetimeHandler/RegexHandler/UUIDHandler/ArrayHandler/LockHandler/QueueHandler"), ("reduce path", "pickler.Pickler._flatten_obj_instance, unpickler.Unpickler._restore_reduce")])

p("C19", "NumPy arrays, scalars and dtypes round-trip",
  "With the NumPy handlers registered, every dtype, NumPy scalar and array of at least one dimension of numeric, boolean, string, datetime, structured (scalar fields) or object dtype (any shape, memory order, byte order, contiguity, size above or below the threshold, compressed or not) decodes to an equal object with the same shape and dtype (its byte order too when stored as binary); views that share memory with an array in the same document still share memory when the view handler is used.",
  ["inputs", "configurations"], "all arrays and handler configurations (size threshold, compression)",
  "Array layouts, thresholds and dtype kinds combine freely; tests fix small arrays.",
  ["jsonpickle/ext/numpy.py"], [("dtype", "ext.numpy.NumpyDTypeHandler"), ("array", "ext.numpy.NumpyNDArrayHandler/Binary/View"), ("scalar", "ext.numpy.NumpyGenericHandler")])

p("C20", "pandas objects and their compressed forms round-trip",
  "With the pandas handlers registered, every Series of scalar values, DataFrame and index of the supported kinds (names text, Python numbers, tuples of them or none) decodes to an equal object with the same dtypes, index and names; the payload codec is lossless for every text payload at every size threshold, compression module or none. "
  "The run-length encoding used for repeated values is the exact inverse of its decoding for every sequence.",
  ["inputs", "configurations"], "all frames, payloads, thresholds and sequences",
  "Tests use small frames and default thresholds.",
  ["jsonpickle/ext/pandas.py", "jsonpickle/tags_pd.py"], [("payload codec", "ext.pandas.PandasProcessor"), ("handlers", "ext.pandas.Pandas*Handler"), ("run length", "ext.pandas.rle_encode/rle_decode")])

p("C21", "Class, function and module references resolve to themselves",
  "Every importable class (including nested and builtin ones) whose dotted name is unambiguous, module-level function and builtin function, and module, used as a value, decodes to the identical object, and an object's entry names its class such that loading that name gives the class back. "
  "Loading a name that does not exist gives nothing rather than an unrelated object or an exception.",
  ["inputs", "programs"], "all qualified names and module layouts, nested classes included",
  "The name is split at every possible module boundary; tests use a few names.",
  [UT, PK, UP], [("naming", "util.importable_name"), ("loading", "util.loadclass, unpickler._loadmodule"), ("references", "pickler._mktyperef/_flatten_function, unpickler.Unpickler._restore_type/_restore_function")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
