BASE = "Silence covers the executions observed only (counts in the evidence). Trusts the reference model/oracle in /verif and the interpreter. "
TECH = {
 "C01": ("round-trip oracle over generated types and values", BASE + "Equality is typed at every level; untagged unions are limited to members with disjoint wire forms."),
 "C02": ("differential oracle, generated values vs reference encoder", BASE + "The reference encoder is written from the documentation; undocumented forms are skipped and counted."),
 "C03": ("differential oracle, generated/mutated payloads vs reference decoder", BASE + "Inputs the documentation says nothing about are skipped and counted."),
 "C04": ("exception monitor over hostile payloads and values", BASE + "Any escape other than ConversionError is a violation; every error observed is rendered."),
 "C05": ("differential oracle, sabotaged values vs reference conformance", BASE + "One foreign value planted at a random place of a valid one."),
 "C06": ("error-trace oracle over single-fault payloads and values", BASE + "The context chain of each observed error is compared with the planted place."),
 "C07": ("differential oracle over type x payload x strictness", BASE + "Texts on which the documentation is silent are skipped and counted."),
 "C08": ("presence oracle over subsets of keys of generated structures", BASE + "All subsets up to 16 per structure, sampled beyond."),
 "C09": ("monitored recorder callbacks and outcome oracle", BASE + "Recorder calls of every level are logged and compared with the expected log."),
 "C10": ("differential oracle over aliased structures", BASE + "Aliases from annotations, class level and mapper level sources."),
 "C11": ("metamorphic and model oracle over flattened vs nested structures", BASE + "Colliding keys are planted and must be refused."),
 "C12": ("differential oracle over structures with a remainder field", BASE + "Claimed, unclaimed and colliding keys are generated."),
 "C13": ("differential oracle over tagged unions and sabotaged tags", BASE + "All styles, discriminator and nesting keys; ill-tagged payloads planted."),
 "C14": ("metamorphic oracle, union vs its members one by one", BASE + "Which member accepts is observed from the library itself."),
 "C15": ("model-based monitor of registry histories", BASE + "Random histories of registrations and lookups against a dictionary model."),
 "C16": ("probe converter observing lookups, model of the priority rule", BASE + "Each lookup at each step is compared with the documented order of sources."),
 "C17": ("model-based monitor of class decoration histories", BASE + "Histories of definitions, decorations and conversions of related classes."),
 "C18": ("call-log monitor over scripted converters in module trees", BASE + "Consultation order and outcome against a model of the dispatch rule."),
 "C20": ("reference field resolver (MRO and substitution) vs observed schema and conversions", BASE + "Inconsistent type arguments and unbound type variables are not compared by type."),
 "C21": ("differential execution under both decorators", BASE + "Where the standard decorator has no equivalent, it is given stand-in defaults; histories without any equivalent are skipped and counted."),
 "C19": ("call-log monitor over attached converters at all places", BASE + "When the annotation's converter declines, whether the class's is next is left open."),
 "C22": ("heap snapshot monitor around conversions, aliasing oracle", BASE + "Containers of a result are spoilt after the conversion and everything else is compared with its snapshot. Lazily evaluated union members are not counted as modification."),
 "C23": ("differential oracle, outcome after a history vs in a pristine forked process", BASE + "Histories of successful, failed and interrupted conversions on shared mappers."),
 "C24": ("schedule-perturbing monitor, outcomes of threads vs the same calls alone", BASE + "A token scheduler interleaves threads at lines of the library; interleavings are sampled, not enumerated."),
 "C25": ("model oracle over placements of the setting in trees of structures", BASE + "Short output compared with the full one minus the fields equal to their default."),
 "C26": ("differential oracle, lists of formats vs single formats and vs strptime", BASE + "Formats are generated from the directives the format library documents."),
 "C27": ("differential oracle against the decimal module", BASE + "Contexts of all precisions, rounding modes, trap and flag combinations generated."),
 "C28": ("differential oracle over generated enums and literals", BASE + "Literals that compare equal across types are left out."),
 "C29": ("metamorphic oracle, decorated vs plain type expressions", BASE + "Unrelated metadata inserted at random places of type expressions."),
 "C30": ("differential execution in several processes", BASE + "Transcripts of the same conversions under different hash seeds and optimisation levels."),
 "C31": ("weak reference and allocation monitor", BASE + "Objects alive after a full collection are compared over repetitions; typing's own caches are cleared first."),
 "C32": ("metamorphic oracle, TypedDict and NamedTuple vs equivalent dataclass", BASE + "Generated declarations in all three forms."),
 "C33": ("metamorphic oracle, containers vs their elements one by one", BASE + "Which element converts to what is observed from the library itself."),
 "C34": ("differential oracle, histories on copied mappers vs separate ones", BASE + "Nested module objects are shared by a copy and not covered."),
 "C35": ("trace monitor at every conversion step", BASE + "A pass-through converter registered first records what each step sees."),
 "C37": ("differential oracle between configurations, container-type monitor", BASE + "Mappers assembled by hand with container, default and schema options next to the default mapper; the type of every container written is compared with the option."),
 "C36": ("differential oracle between entry points", BASE + "All helpers and methods on the same conversions, text compared to the standard JSON codec."),
}
