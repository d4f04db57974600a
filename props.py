"""Per property: how its check runs and what it is called in MANIFEST.json."""

ZOO_RULE = ("Each case takes one of ~100 randomly generated type definitions per zoo (all documented derive attributes, "
            "wrappers and scalar types), draws an arbitrary value and judges the library against the type's independent "
            "model. Distinct non-trivial: different documents with more than one element, attribute or text value.")
ZOO_NOTE = ("Holds on the executions listed in the evidence file (types generated anew per seed). Trusts the model emitted by gen/zoo.py, "
            "the reference parser (cross-checked against expat) and the renderer.")

PROPS = {
    "C01": dict(steps=["zoo"], technique="runtime monitor: round-trip oracle over generated types and values",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C02": dict(steps=["oracle", "zoo"], technique="runtime monitor: independent reference XML parser reads every output",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C03": dict(steps=["core", "zoo"], technique="runtime monitor: output infoset compared to the type's model",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C05": dict(steps=["core"], technique="runtime monitor: every Unicode scalar value and random strings through every text position, read back by a reference parser",
                rule="Every Unicode scalar value in every position, plus random strings rich in markup. Distinct non-trivial: different non-empty strings.",
                note="Single characters are covered exhaustively, strings by sampling; trusts the reference parser."),
    "C06": dict(steps=["core"], technique="runtime monitor: every character reference and random reference syntax against a reference decoder",
                rule="Every number up to 0x117fff as decimal and hexadecimal reference, plus random concatenations of reference fragments. Distinct non-trivial: different bodies containing &.",
                note="Single references are covered exhaustively up to eight characters' worth of numbers, combinations by sampling."),
    "C07": dict(steps=["core", "zoo"], technique="runtime monitor: metamorphic namespace rewriting with a model oracle; names resolved at each node against the reference parser",
                rule=ZOO_RULE + " Random trees are also walked by hand, comparing every resolved name and prefix.", note=ZOO_NOTE),
    "C08": dict(steps=["core", "zoo"], technique="runtime monitor: panic, abort, stack-overflow and stall detectors under hostile documents",
                rule="Token soup, random characters, mutated documents and growing extreme shapes, read by hand-written and generated types and by hand-pulling callers that go on after errors. Distinct non-trivial: different inputs containing <.",
                note="Sampled inputs; the stall detector allows 60 s for one input."),
    "C09": dict(steps=["oracle", "core", "zoo"], technique="runtime monitor: reference parser decides well-formedness of mutated documents",
                rule="All documents of up to four of 16 tokens (five in the thorough tier), every truncation of random documents and random syntax mutations, read by AnyElement, ignoring and empty types, hand pulling and generated types. Distinct: different documents.",
                note="Small documents exhaustively, others by sampling. What the library treats its own way (DESIGN.md) is not judged."),
    "C10": dict(steps=["core", "zoo"], technique="runtime monitor: element, attribute and declaration counts of the reference parser against the limits",
                rule="Documents at, around and beyond default and random limits, in every place, read by types that look at everything, something or nothing. Distinct: different pairs of document and limits.",
                note="Sampled documents and limits."),
    "C11": dict(steps=["zoo"], technique="runtime monitor: metamorphic text splitting with a model oracle",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C12": dict(steps=["zoo"], technique="runtime monitor: metamorphic reordering and insertion with a model oracle",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C13": dict(steps=["core", "zoo"], technique="runtime monitor: cardinality mutations with a model oracle",
                rule=ZOO_RULE, note=ZOO_NOTE),
    "C26": dict(steps=["zoo"], technique="runtime monitor: error values of documents with one planted defect compared to the defect and its place in the model",
                rule=ZOO_RULE + " One defect is put into a document of it: a value removed or repeated, a bad text, reference, prefix or root element, an element in a scalar, an exceeded limit, an early end; if the library refuses it, the error must be of the variant for that and name it.",
                note=ZOO_NOTE + " Judges what errors say, not whether they are due."),
    "C14": dict(steps=["oracle", "core"], technique="runtime monitor: captured tree compared to the reference parser's",
                rule="Random trees of names, namespaces, attributes and mixed text in all renderings, captured as root and as single, optional and repeated fields. Distinct non-trivial: different documents with more than one element or attribute.",
                note="Sampled documents; trusts the reference parser (cross-checked against expat)."),
    "C15": dict(steps=["core", "zoo"], technique="runtime monitor: accepted texts compared to independent scalar grammars",
                rule="All 8- and 16-bit integers and just beyond, plus random and perturbed texts of every scalar type in four positions. Distinct non-trivial: different texts.",
                note="Small integers exhaustively, everything else by sampling; grammars are independent except floats and IP addresses (Rust's own FromStr)."),
    "C16": dict(steps=["core"], technique="runtime monitor: address-range monitor on borrowed strings",
                rule="Random documents whose text pieces are verbatim or not in known ways. Distinct: different documents.",
                note="Judges address ranges of strings the library returns on the sampled documents."),
    "C17": dict(steps=["zoo"], technique="runtime monitor: fault-injecting writer", level="fault_enumeration",
                rule=ZOO_RULE + " Writer faults at every byte of short outputs and sampled bytes of long ones.", note=ZOO_NOTE),
    "C04": dict(steps=["core"], technique="runtime monitor: online monitor of every Serializer call against a model of what has been written",
                rule="Random well-nested call sequences with arbitrary contexts (default namespaces, shadowed, repeated and forced prefixes, empty elements); after every call prefix() of every namespace and default_ns() are compared to the bindings the output so far has in scope. Distinct non-trivial: different outputs with more than one element.",
                note="Sampled call sequences; trusts the reference parser."),
    "C21": dict(steps=["core"], technique="runtime monitor: state-machine monitor of valid and invalid Serializer call sequences",
                rule="Random call sequences in which misplaced calls are mixed in at every state; the output, the bindings and all that follows must be as without them. Distinct non-trivial: different sequences with at least one refused call.",
                note="Sampled call sequences. Calls on tokens of other elements (closing out of order) are outside the claim."),
    "C22": dict(steps=["core"], technique="runtime monitor: nodes yielded under random pulling schedules compared to the reference parser's events",
                rule="Random documents in random renderings, pulled by random schedules of next, nested, for_node, take_str, ignore, deserialize and dropping. Distinct non-trivial: different pairs of document and schedule.",
                note="Sampled documents and schedules. Nested deserializers are exhausted or ignored before their parent goes on (the API's contract)."),
    "C18": dict(steps=["names", "zoo"], technique="runtime monitor: names of generated types, written and read, compared to the documented rules; near misses must be refused",
                rule="Types generated per seed: nine rename rules (eight and none) times about 35 identifiers as elements, attributes, transparent fields and enum variants, with rename, discriminants, raw identifiers, split #[xml] lists and ns(..) in all its forms, plus the zoo. Distinct non-trivial: different documents with more than one element, attribute or text value.",
                note="Sampled combinations (new ones per seed). Trusts the generators' own implementation of the rules. Types that do not compile are violations if the library itself does."),
    "C19": dict(steps=["zoo", "names"], technique="runtime monitor: round trip and model oracle, substituted elements and texts must be refused",
                rule=ZOO_RULE + " Only types with forward or scalar enums or transparent structs; elements of variants are replaced by others, texts of variants by near misses.", note=ZOO_NOTE),
    "C25": dict(steps=["zoo"], technique="runtime monitor: metamorphic moving, doubling and removing of direct text with a model oracle",
                rule=ZOO_RULE + " Only types with direct fields somewhere.", note=ZOO_NOTE),
    "C24": dict(steps=["core"], technique="runtime monitor: call log of recording, marking and failing hook functions compared to the document",
                rule="Random documents in random order and renderings for types with deserialize_with on all kinds of fields, and random values of types with serialize_with; every call's element, text and accumulator are logged, and one call of many is made to fail. Distinct non-trivial: different documents.",
                note="Hand-written types, sampled documents and values."),
    "C20": dict(steps=["meter"], technique="runtime monitor: instruction counter (callgrind) and counting allocator over growing documents",
                rule="About 65 families of documents and values, each growing in one dimension (pieces of text, references, siblings, names, attributes, declarations, depth up to the limits), read in up to seven ways; 256 to 16384 parts (262144 in the thorough tier), times four each. An evaluation is one measured operation; distinct: different pairs of family and size.",
                note="Judges growth between sizes (1.35 times the linear growth of instructions, 2.4 of allocated bytes for doubling buffers), on the listed families; numbers of instructions are deterministic."),
    "C23": dict(steps=["asan", "miri"], thorough_steps=["asan", "asan_core", "miri"],
                technique="sanitizers: AddressSanitizer and Miri, with an allocation balance per case and a UTF-8 monitor on every string",
                rule="Random documents, values, pulling schedules (nested deserializers abandoned half-way, going on after errors), Serializer call sequences and failing writers; inputs are exact allocations that are overwritten and freed before owned values are looked at. Distinct: different inputs.",
                note="Holds on the executions observed; Miri sees several hundred small ones. A leak is memory a case does not give back."),
}
PROPS = dict(sorted(PROPS.items()))

for spec in PROPS.values():
    spec.setdefault("level", "exploration")
