#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here, one call each."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
C = "databind/src/databind/json/converters.py"
M = "databind/src/databind/json/module.py"
JI = "databind/src/databind/json/__init__.py"
JS = "databind/src/databind/json/settings.py"
CC = "databind/src/databind/core/converter.py"
CX = "databind/src/databind/core/context.py"
CM = "databind/src/databind/core/mapper.py"
CS = "databind/src/databind/core/schema.py"
CU = "databind/src/databind/core/union.py"
ST = "databind/src/databind/core/settings.py"
DC = "databind/src/databind/core/dataclasses.py"

props = []


def P(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                      why_tests_cant=why, anchors=a))


P("C01", "Round trip: deserializing what was serialized gives the value back",
  "For every type the JSON layer supports, every value of exactly that type and every fixed set of settings, "
  "deserializing the serialized form of the value with the same type and settings yields a value that is equal to "
  "the original and has the same concrete types at every nesting level. "
  "The same holds when the serialized form passes through JSON text in between.",
  ["inputs", "programs"],
  "All type expressions composed from plain types, date/time/decimal/UUID/path/duration, enums, literals, sequences, sets, tuples, "
  "mappings with string-like keys, optionals, unions, dataclasses (generic, inherited, recursive, aliased, flattened, with remainder), "
  "TypedDicts and NamedTuples; all values of them (UTC offsets in whole minutes, durations in whole seconds, untagged unions whose members' serialized forms are disjoint).",
  "The tests serialize and deserialize a handful of fixed objects, mostly with a mapper holding two or three converters; the claim is over the product of all types and all values.",
  [C, M, CS, ST], [("every converter implements both directions against one schema", C), ("converter set and order", M)],
  ["databind.json.dump/load/dumps/loads return values"])

P("C02", "Wire form: serialization emits exactly the documented JSON form",
  "The serialized form of a value is made only of None, bool, int, float, str, lists and dicts with string keys, and is exactly the documented one: "
  "arrays for collections in iteration order, objects for mappings and structured types with one entry per field under its first alias or name, "
  "ISO 8601 strings for dates, times and datetimes, base64 text for bytes, the member name or first alias for enums and the number for integer enums, and the canonical string for decimals, UUIDs, paths and durations. "
  "No field, element or entry of the value is dropped, duplicated or renamed.",
  ["inputs", "programs"],
  "All supported type expressions and all their values, against an independent encoder of the documented format.",
  "Tests compare the output for about thirty literal values; they never compose the types with each other.",
  [C, M], [("per-type converters", C), ("schema serialization", C)], ["databind.json.dump/dumps return values"])

P("C03", "Deserialization is sound: accepted payloads denote the returned value",
  "For every supported type and every JSON payload, deserialization either returns the one value the payload denotes for that type, which is an instance of the declared type at every nesting level, or raises a conversion error. "
  "In particular a payload that does not describe a value of the type (wrong JSON kind anywhere, wrong tuple length, missing or unknown keys, unknown enum member, malformed string) is never silently accepted, truncated or coerced.",
  ["inputs", "programs"],
  "All supported type expressions; payloads that are valid, valid with one or more mutations at any depth, or arbitrary JSON.",
  "Tests check a dozen rejected payloads, each at the root; nothing checks that all other malformed payloads are rejected.",
  [C, CC, CS], [("type checks in every converter", C), ("first successful converter wins, otherwise an error is raised", CC)],
  ["databind.json.load return value and exception"])

P("C04", "Only conversion errors escape, and they can always be rendered",
  "Whatever JSON-like payload is given for a supported type, and whatever Python value is given for serialization, the conversion either returns or raises ConversionError (or its subclass for missing converters); "
  "no other exception type escapes unless user-supplied code raised it. "
  "Turning such an error into text never fails and always starts with the error's own message.",
  ["inputs", "programs"],
  "All supported types, payloads including NaN, infinities, huge numbers, lone surrogates, empty and deeply mixed containers, non-string keys, unknown discriminators.",
  "Tests only provoke errors where the code explicitly raises ConversionError; exceptions leaking from helpers (int, float, decimal, zip, dict lookups, imports) need inputs no test supplies.",
  [C, CC, CU, CX], [("exception translation in converters", C), ("error text rendering", CC), ("trace rendering", CX)],
  ["exception type and str() of the exception"])

P("C05", "Serialization checks types: a non-conforming value is never emitted",
  "Serializing a value that is not of the declared type raises a conversion error, wherever in the structure the offending value sits and whatever settings are in force. "
  "No partial or reinterpreted payload is returned instead; the only tolerated differences are an integral float where an int is declared, an int where a float is declared, and any mapping with suitable entries where a mapping type is declared.",
  ["inputs", "programs"],
  "All supported types, conforming values with one sub-value at any depth replaced by a value of a foreign type.",
  "Tests check three mismatches at the root; the README promises full runtime type checking during serialization for every type and position.",
  [C, CC], [("isinstance checks in the serialize branches", C)], ["databind.json.dump return value and exception"])

P("C06", "Errors point at the offending place of the payload",
  "When exactly one place of an otherwise valid payload (or value being serialized) is wrong, the raised error's context chain leads from the root through the keys and indices of the enclosing containers to that place, and carries the value found there. "
  "The rendered trace lists those steps in order from the root and names the file the payload came from whenever a filename was given, the new one where a step leads into another file, and a line and column for exactly those steps they were given for.",
  ["inputs", "programs"],
  "All supported types without untagged alternatives on the path; every single-place corruption; with and without a filename.",
  "Tests check the rendered trace of two contexts and one error; the path must be right for every type nesting and position.",
  [CX, CC, C], [("contexts are spawned with key/index and inherit the filename", CX), ("errors are re-raised with their origin context", CC)],
  ["ConversionError.context, str(error), format_context_trace"])

P("C07", "Plain conversions are lossless and follow strictness",
  "For bool, int, float, str and bytes, strict mode (the default) accepts only the same type, an int for a float, an integral float for an int, and base64 text for bytes; non-strict mode additionally accepts text for int, float and bool and int, float or bool for text. "
  "Every accepted conversion preserves the value's meaning (truthy words give True, falsy words give False, numbers are never truncated) and everything else is rejected with a conversion error. "
  "Non-strictness only ever affects deserialization.",
  ["inputs", "configurations"],
  "All pairs of source value and target type, both directions, strictness given globally, per call, by annotation, by converter option or not at all.",
  "Tests try three values in strict and non-strict mode; the table of source, target, direction and strictness has hundreds of cells and infinitely many values.",
  [C, ST], [("strict and non-strict adapter tables", C), ("strictness lookup", C)], ["mapper.convert return value and exception"])

P("C08", "Presence: required fields must be there, absent ones get their default",
  "A field of a dataclass or TypedDict must be present in the payload exactly if it has neither a default nor an optional type, unless an explicit required-setting says otherwise; a key its TypedDict declares non-required is never required. "
  "An absent non-required field takes its declared default, freshly produced for every object that lacks it when given as a factory (which is not called for a value that is there), or None for an optional type or one that only an explicit setting makes non-required, or stays absent when a TypedDict declares the key non-required without default. "
  "A value present in the payload is always used, even if it is null, falsy or equal to the default.",
  ["inputs", "programs"],
  "All field declarations (default, factory, optional, Required on/off, total and non-total TypedDict, inherited), all subsets of present keys.",
  "Tests check the derived schema of a few classes but never enumerate which subsets of keys load, nor the freshness of factory defaults.",
  [C, CS], [("required/default derivation", CS), ("field extraction", C)], ["databind.json.load return value and exception"])

P("C09", "Extra keys: rejected by default, allowed and reported exactly when asked",
  "A structured payload with keys no field claims is rejected unless the extra-keys setting in force for that very level allows it; a setting on a class or an annotation does not extend to nested or enclosing levels, a per-call setting applies to all levels without a closer one. "
  "When allowed, the result is the same as if the extra keys were absent, and a registered recorder is called once per offending level with that level's context and exactly the set of unclaimed keys.",
  ["inputs", "configurations", "programs"],
  "Nested structures, any placement of extra keys over levels, any placement of allowing and forbidding settings (class, annotation, per call), priorities.",
  "No active test covers extra keys at all; the interplay of level and setting placement is combinatorial.",
  [C, ST], [("unused key computation", C), ("ExtraKeys.inform", ST)], ["load result, ConversionError, recorder callback log"])

P("C10", "Aliases: written under the first, read from the first one present",
  "A field with aliases is serialized under its first alias only, and deserialized from the first of its aliases, in declared order, that occurs in the payload; the field's own name is not recognised unless it is itself an alias. "
  "Further aliases of the same field present in the payload count as unclaimed keys. "
  "This holds whether the alias comes from the annotation or another settings source, and for flattened fields too.",
  ["inputs", "programs", "configurations"],
  "All alias lists and all subsets of them present in the payload, for dataclasses, TypedDicts, nested and flattened fields, alias swaps between fields.",
  "The only active alias test is for enum members; precedence among several present aliases is never exercised.",
  [C, ST], [("alias lookup in serialization and extraction", C)], ["dump output keys, load result"])

P("C11", "Flattening moves fields, and nothing else",
  "Serializing a structure with flattened fields gives exactly the union of the enclosing level's own entries and the entries of the flattened structures, at any depth of flattening, and deserializing such a payload gives the same object as deserializing the nested form without flattening. "
  "If two entries would land on the same key, serialization fails with an error instead of losing one of them, and extra or missing keys are judged against the merged level.",
  ["inputs", "programs"],
  "All trees of dataclasses and TypedDicts with flattened fields, with aliases, defaults and optional fields inside, all payload key subsets.",
  "The end-to-end flatten test is commented out upstream; only the helper computing expanded fields is tested, on one shape.",
  [C, CS], [("flattened branch of serialization and extraction", C), ("get_fields_expanded", CS)], ["dump output, load result and exception"])

P("C12", "The remainder field gets exactly the keys no other field claims",
  "When a structure has a remainder field, deserialization puts exactly the payload entries not claimed by any other field (including flattened ones) into it, converted to its value type and in payload order, and never reports them as extra keys. "
  "Serialization writes the remainder's entries next to the other fields and fails if one of its keys collides with another field's key or if there is more than one remainder field.",
  ["inputs", "programs"],
  "Structures with aliases, defaults, flattened and optional fields plus a remainder; payload key sets including aliases and colliding names.",
  "One test with one field and one extra key.",
  [C, ST], [("remainder handling in schema (de)serialization", C)], ["dump output, load result and exception"])

P("C13", "Tagged unions: the tag and the payload select and shape one member",
  "For a tagged union in nested, flat or keyed style with any discriminator and nesting key, serialization picks the member registered for exactly the value's type and produces the documented shape of that style, and deserialization uses the member named by the tag and only that one. "
  "A missing, non-string or unknown tag, a missing nesting entry, a keyed payload without exactly one entry, and a value whose type is no member are rejected with a conversion error; so is a member whose own key, or a nesting key, is the discriminator key. All of this holds as well where the class that carries the union could be converted without it, and where it is one of its own members.",
  ["inputs", "programs", "configurations"],
  "All member sets, styles, discriminator and nesting keys, members given directly or lazily, unions declared by annotation or by class decorator, nested in containers and other unions.",
  "Tests use one int/str union per style with default keys; the nesting key is never exercised, nor unknown tags.",
  [C, CU, ST], [("union shaping", C), ("member lookup", CU)], ["dump output, load result and exception"])

P("C14", "Untagged unions take the first member, in declared order, that accepts",
  "Converting a value or payload against a plain union yields the result of converting it with the first member type, in declared order, that accepts it on its own, and is rejected exactly if no member accepts it; the order does not depend on anything else. "
  "None is accepted exactly if the union is optional, and adding None to a union changes nothing for other values.",
  ["inputs", "programs"],
  "All unions of distinct supported class-like members in any order, with and without None, as root and nested, both directions.",
  "Two tests with one payload per union; failures of an early member with unusual payloads (which must fall through to later members) are untested.",
  [C], [("best-match loop", C), ("optional unwrapping", C)], ["load/dump result compared with per-member results"])

P("C15", "Union member registries map types and identifiers one to one",
  "In every kind of member registry (static, import, entry point, chained) looking up the identifier of a member type and then the type of that identifier gives the type back, and vice versa for identifiers a registry lists; the members may be given as a registry, a mapping, a list of those, or by the strings for imports and entry points; registrations, replacements and removals made at any time are visible to the next lookup. "
  "A type or identifier that is not a member is reported as ValueError, which a module that exists but fails to import, be it named by an identifier or by an entry point, is not mistaken for; a chain answers with its first delegate that knows the answer, and the listed identifiers of a chain are those of its delegates in order without duplicates.",
  ["inputs", "histories"],
  "All member maps including lazily evaluated members and parametrised members, all interleavings of registration and lookup, all importable module-level and nested classes.",
  "No test touches the import, entry point or chained registries or late registration.",
  [CU, ST], [("StaticUnionMembers, ImportUnionMembers, EntrypointUnionMembers, ChainUnionMembers", CU)],
  ["get_type_id / get_type_by_id / get_type_ids return values"],
  state=[("_eval_cache", "memo of lazily evaluated members", CU), ("_entrypoints_cache", "memo of the entry point group", CU)])

P("C16", "Setting lookup: highest priority wins, ties go to the closest source",
  "The setting in force for a conversion step is the one of highest priority among all applicable ones, and among equal priority the first in the order annotation, class decorator, per-type settings, providers and conditionals, global settings, parent provider. "
  "This holds for every kind of setting and every number of candidates per source; settings of other kinds, other types or failed conditions never influence it. "
  "What a provider raises comes out of the lookup unchanged, and type hints whose settings differ in priority stay distinct.",
  ["configurations", "histories"],
  "All placements of settings with all priorities over all sources, chains of parent providers, per-call overrides, any order of adding them.",
  "No test covers settings resolution beyond a single global or annotation setting.",
  [ST, CX, CM], [("Settings.get_setting", ST), ("get_highest_setting", ST), ("per-call settings layering", CM)],
  ["Context.get_setting results seen by a converter"])

P("C17", "A class decorator setting affects exactly the class it decorates",
  "Decorating a class with a setting makes it effective for that class and for no other: not for its base classes, not for its subclasses, and independently of which of them were decorated before or after. "
  "Several decorators on one class are all kept, and one setting object cannot silently be bound to two classes.",
  ["programs", "histories"],
  "All class hierarchies with all choices and orders of decorated classes, several setting kinds per class.",
  "Tests decorate single base classes only, so leakage between related classes cannot show.",
  [ST], [("ClassDecoratorSetting.__call__ and get_class_settings", ST)], ["get_class_setting(s), Context.get_setting, load behaviour"])

P("C18", "Dispatch: the first registered converter that succeeds decides",
  "A conversion step is offered to the registered converters in registration order (front registrations first, nested modules expanded in place) and its result is that of the first one that returns; converters that decline or fail are skipped and no further converter is consulted after a success. "
  "If none returns, a single reported failure is raised unchanged, and otherwise an error listing all reported failures in order is raised; any other exception of a converter propagates unchanged and immediately.",
  ["programs", "configurations", "histories"],
  "All trees of modules and converters with scripted outcomes, all registration orders, both directions.",
  "Tests never register competing converters except through one annotation override.",
  [CC, CM], [("Module.register / get_converters / convert", CC)], ["call log of scripted converters, returned value or raised error"])

P("C19", "Custom conversions attached to a type or annotation take precedence",
  "A converter attached to a class or annotation is used wherever that type or annotation occurs in a payload, before any built-in conversion, in both directions, with the annotation's one taking precedence over the class's; if it declines, the built-in conversion applies as if it were absent; a supplier is asked for its converter whenever one is needed. "
  "Converters that delegate to named methods call exactly those methods on the declared class with the value, check the declared serialized type, and work under additional annotations; string converters built from a parser and formatter round-trip every value those functions round-trip, for the type and, when the type's own constructor is the parser, its subclasses, and refuse with a conversion error every text for which the parser raises ValueError or TypeError.",
  ["programs", "inputs"],
  "All placements (root, field, list element, mapping key and value, optional, union member, nested) of custom types and annotations, all payload kinds.",
  "Tests cover the root position and mapping keys for one class each.",
  [M, JS, CC, C], [("JsonConverterSupport", M), ("using_classmethods", JS), ("DelegateToClassmethodConverter", CC), ("StringifyConverter", C)],
  ["call log of the custom converter, dump/load results"])

P("C20", "A derived schema matches the class under inheritance and generics",
  "The schema derived from a dataclass lists exactly the fields its constructor accepts, each with the type, default and required-ness that Python's own method resolution order and type parameter substitution give it, with string and postponed annotations resolved in the module where the field was declared. "
  "Type arguments are substituted simultaneously and at any depth of generic inheritance, and an overriding field always wins over an overridden one. "
  "The expanded form of a schema lists for each flattened field exactly the fields it brings along at any depth, by the conversion function the caller gives.",
  ["programs"],
  "All dataclass hierarchies: multiple inheritance, diamonds, non-dataclass mixins, generic bases with permuted, nested and partially bound arguments, overrides, init=False fields, classes spread over modules.",
  "Tests cover about ten hand-written hierarchies of depth two or three; diamonds and cross-module overrides are absent.",
  [CS], [("field origin and parameter map computation", CS)], ["convert_to_schema result, load/dump of instances"])

P("C21", "The dataclass extension behaves like the standard library's",
  "A class that the standard dataclass decorator accepts behaves the same under the extension: same constructor acceptance and binding, same attribute values, equality, ordering, hashing, representation, immutability, replace, asdict and post-init behaviour, for every combination of options, field kinds and inheritance. "
  "In addition a field without default may follow one with default; it can be passed by position or keyword, and leaving it out raises TypeError however classes decorated with the extension derive from each other. "
  "field() differs from the standard one only by adding the annotations to the metadata of the field, and leaves the metadata it is given alone.",
  ["programs", "inputs"],
  "All class shapes with fields with and without default or factory, init=False fields, class variables, init-only variables, keyword-only and slots options, inheritance chains; all argument lists.",
  "No test covers the extension module at all.",
  [DC], [("_process_class and the generated __post_init__", DC)], ["constructed objects and exceptions compared with a reference class"])

P("C22", "Conversions never modify their input nor share mutable results",
  "Neither serialization nor deserialization modifies the value, payload, type, settings or mapper it is given, whether it succeeds or fails. "
  "Two conversions never share mutable containers they created: mutating a result changes neither the input (except parts passed through under an unrestricted type), nor the class's defaults, nor the result of any other conversion.",
  ["inputs", "programs", "histories"],
  "All supported types, valid and invalid payloads, sequences of conversions with mutation of earlier results in between.",
  "No test inspects inputs after a call or mutates results.",
  [C, CS], [("fresh containers in every converter", C), ("fresh factory defaults", CS)], ["deep snapshots of inputs before and after, object identities in results"])

P("C23", "A conversion depends only on its arguments, not on earlier ones",
  "The outcome of a conversion (result, or error message and place) is the same no matter which other conversions, successful, failed or interrupted by an exception in user code, happened before it in the process or on the same mapper. "
  "Settings passed for one call never affect another call.",
  ["histories", "fault_sequences", "inputs"],
  "Random interleavings of conversions of related types with different settings on shared and fresh mappers, with exceptions injected into user converters, recorders, factories and constructors at every step.",
  "Each test uses a fresh mapper and does one or two conversions.",
  [CM, CC, ST, C], [("stateless converters", C), ("per-call settings layered on the mapper's", CM)], ["outcome of probe conversions before, during and after a history"])

P("C24", "One mapper may be used by many threads at once",
  "Concurrent conversions on one shared mapper, including the first use of lazily evaluated union members and entry points, give each thread exactly the outcome the same call gives alone. "
  "No interleaving makes a call fail, return a value belonging to another call, or see a half-initialised registry.",
  ["schedules", "inputs"],
  "Mixed conversions from many threads with forced thread switches inside the library, cold and warm registries.",
  "No test uses threads.",
  [CM, CC, CU], [("no shared mutable conversion state", CC), ("lazily filled caches in member registries", CU)],
  ["per-call outcomes under forced preemption compared with sequential outcomes"],
  state=[("_entrypoints_cache", "lazily filled on first use", CU), ("_eval_cache", "lazily filled per member", CU)])

P("C25", "Omitting defaults drops exactly the fields that equal their default",
  "With default serialization switched off, the output is the full output minus exactly those entries whose field has a default (including the implied None of optional fields) equal to the current value; with it on, which is the initial behaviour, every field is present. "
  "Either way, deserializing gives back an equal object as long as every omitted field is not declared required, and the setting is honoured from any settings source and applies to nested structures according to its scope.",
  ["inputs", "configurations", "programs"],
  "All structures with defaults and factories, remainder and flattened fields, values equal, close to and different from the defaults.",
  "The only test of the setting is commented out.",
  [C, ST], [("serialize_defaults handling", C)], ["dump output with the setting on and off, load of both"])

P("C26", "Date formats: parse any of the listed formats, write the first usable one",
  "With a date format setting, serialization of a date, time or datetime uses the first listed format applicable to that kind and deserialization accepts exactly the strings one of the applicable listed formats accepts, giving the value they denote; a value or string no listed format applies to is rejected with a conversion error. "
  "Without the setting ISO 8601 is used; values serialized with a format that captures all their components are recovered exactly.",
  ["inputs", "configurations"],
  "All dates, times and datetimes (years 1 to 9999, microseconds, whole-minute offsets), lists of custom format strings, compiled formats and built-in format sets, from every settings source.",
  "Three literal values with the default format.",
  [C, ST], [("DatetimeConverter", C), ("DateFormat.parse and format", ST)], ["load/dump results and exceptions"])

P("C27", "Decimals are exact unless a precision is set, and then rounded by it",
  "Without a precision setting every decimal, including its exponent, sign and special values, survives serialization and deserialization unchanged and always travels as text; numbers are accepted as payload only when strictness is off, and then denote exactly that number. "
  "With a precision setting the deserialized value is the payload's number rounded with that precision and rounding mode; malformed text is rejected with a conversion error.",
  ["inputs", "configurations"],
  "All decimals, all precision and rounding combinations, strict and non-strict, all malformed texts.",
  "One value with and without strictness; precision is never tested.",
  [C, ST], [("DecimalConverter", C), ("Precision.to_decimal_context", ST)], ["load/dump results compared with the decimal module"])

P("C28", "Enums and literals admit exactly their members",
  "An enum member is written as its first alias or name (its integer for integer enums) and read from any of its aliases or its name, an aliased member keeping its name readable; exactly the members are accepted, combined flags are not serializable, and reading never yields a member of another enum. "
  "A literal type passes exactly the listed values unchanged in both directions and rejects all others.",
  ["inputs", "programs"],
  "All enum classes (plain, integer, string-mixin, flag, with duplicate values and aliases), all literal lists, all payloads.",
  "Two enums with three members; one literal pair.",
  [C], [("EnumConverter", C), ("LiteralConverter", C)], ["load/dump results and exceptions"])

P("C29", "Unrelated annotations do not change how a type converts",
  "Wrapping any supported type, at any place of a type expression where an annotation is allowed, in an annotation whose metadata is unrelated to conversion, or in several of them, does not change the outcome of any conversion in either direction. "
  "Settings in an annotation around an optional type act as if they were placed on the type inside it.",
  ["programs", "inputs"],
  "All supported types and positions (root, field, element, mapping key and value, optional operand), all payloads and values, valid and invalid.",
  "Tests annotate only with the settings under test, on plain types and dataclasses.",
  [C, CC], [("annotation unwrapping in each converter", C)], ["outcome with and without the annotation"])

P("C30", "Results do not depend on hash seed, optimisation level or process",
  "The same conversions run in another process with another string hash seed, or with assertions compiled away, give the same results in the same key order and reject the same inputs. "
  "Only the iteration order of set-typed values themselves may differ.",
  ["configurations", "inputs"],
  "All supported types and payloads, hash seeds, python with and without -O, fresh processes.",
  "The test suite runs with one fixed hash seed and assertions on.",
  [CS, C], [("TypedDict schema field order", CS), ("remainder and error paths", C)], ["transcripts of several interpreter processes compared"])

P("C31", "Finished conversions leave nothing behind",
  "After a conversion has finished and its result and error have been dropped, the library keeps no reference to the payload, the value, the result or types created for it, and repeating a conversion any number of times does not grow the library's memory. ",
  ["histories", "inputs"],
  "All supported types, successes and failures, repeated thousands of times.",
  "No test observes object lifetimes.",
  [CM, CC, CX, C], [("contexts live only during a call", CX), ("schemas are derived per call", C)], ["weak references to inputs and results, object counts over repetitions"])

P("C32", "TypedDicts and NamedTuples convert like the equivalent dataclass",
  "A TypedDict (total, non-total or inheriting from both kinds, with any key names) and a typed NamedTuple convert like a dataclass with the same fields: same accepted payloads, same serialized object, same field type checks, the result being a plain dict with exactly the keys present or defaulted, or an instance of the NamedTuple. "
  "Non-required TypedDict keys may be absent in both directions, NamedTuple fields with a default on deserialization.",
  ["inputs", "programs"],
  "All TypedDict and NamedTuple declarations and payloads, including key names that are also dict methods.",
  "TypedDict conversion is tested only at schema level; NamedTuple with one payload.",
  [CS, C], [("convert_typed_dict_to_schema", CS), ("NamedTuple branch of the collection converter", C)], ["load/dump results compared with an equivalent dataclass"])

P("C33", "Containers convert element by element, keeping order, count and kind",
  "Converting a collection, tuple or mapping is the same as converting each element, key and value on its own with the element type: the output has the same length and order, fails exactly if one element fails (or two keys of a mapping become the same), and deserialization yields an instance of the declared container type. "
  "Fixed-size tuples accept exactly their length; strings, bytes and mappings are never taken for collections.",
  ["inputs", "programs"],
  "All container types (list, tuple, set, frozenset, deque, abstract collections, subclasses, dict and mapping types) and element types, nested, all lengths.",
  "Tests use lists and dicts of ints of length up to three.",
  [C], [("CollectionConverter", C), ("MappingConverter", C)], ["container results compared with element-wise results"])

P("C34", "A copied mapper and the original are independent",
  "A copy of a mapper or of a settings object behaves like the original at the time of copying, and afterwards registering converters or adding settings of any kind on either one never affects the other. "
  "Mappers created separately never affect each other.",
  ["histories", "configurations"],
  "All sequences of registrations, setting additions, copies and conversions over a family of mappers.",
  "No test copies a mapper or settings.",
  [CM, ST], [("ObjectMapper.copy", CM), ("Settings.copy", ST)], ["outcomes of probe conversions on every mapper of the family after every step"])

P("C35", "Settings reach the places they are meant for, and only those",
  "Settings passed for a call or added to the mapper are seen at every depth of the structure being converted, and settings added for one type at every occurrence of that type; settings in an annotation are seen for the annotated value itself and not for values nested inside or next to it. "
  "Direction and source filename are the same at every step of one conversion.",
  ["configurations", "programs", "inputs"],
  "All type nestings, all setting placements, both directions, observed at every conversion step.",
  "Tests pass settings only for a root-level plain type.",
  [CX, CM, ST, C], [("Context.spawn propagation", CX), ("Settings.get_setting", ST)], ["a pass-through converter registered first that records every step"])

P("C36", "All entry points agree with each other",
  "The text helpers equal the object helpers composed with the standard JSON codec (with indentation and key sorting passed through), the object helpers equal a freshly made mapper, and a mapper's directional methods equal its general one, for results and for errors, with the same filename and settings. "
  "A type given as a type hint object converts as the type itself.",
  ["inputs", "configurations", "programs"],
  "All supported types, values, payloads, settings, filenames, indent and sort options.",
  "Tests use a different entry point per test and never compare them.",
  [JI, CM], [("load/loads/dump/dumps", JI), ("ObjectMapper.convert/serialize/deserialize", CM)], ["outcomes of all entry points on the same arguments"])

P("C37", "Converters set up with options do what the options say, and nothing else changes",
  "A mapper assembled from the library's own converters converts like the default one. Told to write other containers (for sequences, for mappings, for objects with fields), it writes the same data in exactly those containers at every level, refuses the same values at the same places, and what it wrote reads back as the same value. "
  "Told to leave out defaults, it leaves them out as if that had been the setting, which an explicit setting overrides; the same goes for the strictness the converters of numbers are given. With a schema function of its own, a class that is no dataclass is read and written by its schema like the dataclass with the same fields: its constructor is called once for each object, and objects of other classes are refused.",
  ["inputs", "configurations", "programs"],
  "All supported types and values, all container types given to the converters, all schemas.",
  "No test sets up a collection, mapping or schema converter with options.",
  [C, CS], [("constructors of the converters, SchemaConverter.serialize_from_schema / deserialize_from_schema", C)], ["outcome and container types at every place of what is written", "calls of the schema's constructor"])

with open(OUT, "w") as f:
    for p in props:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
