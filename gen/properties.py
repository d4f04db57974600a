#!/usr/bin/env python3
"""Writes properties.jsonl (kept here in readable form): gen/properties.py > properties.jsonl"""
import json

SER, DE, IMPLS, ANY, LIB = (f"instant-xml/src/{f}.rs" for f in ("ser", "de", "impls", "any_element", "lib"))
MLIB, MDE, MSER, META, CASE = (f"instant-xml-macros/src/{f}.rs" for f in ("lib", "de", "ser", "meta", "case"))


def p(id, title, statement, over, text, why, files, state, mechanism, observe):
    print(json.dumps({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "where": ", ".join(files)} for n in state],
            "mechanism": [{"name": mechanism, "where": ", ".join(files)}],
            "observe_at": observe,
            "hook_needed": None,
        },
    }, ensure_ascii=False))


p("C01", "Round trip: what to_string writes, from_str reads back equal",
  "For every type that derives ToXml and FromXml with the documented attributes, every value whose text consists of characters XML allows is read back equal by from_str from the output of to_string. "
  "This includes empty, blank and special text, absent and nested optional values, empty lists, extreme numbers, recursive and generic types, enums, transparent and tuple structs.",
  ["inputs", "programs"], "all types built from the documented derive attributes and supported field types, and all their values",
  "Tests round-trip about 40 hand-written types with one or two ordinary values each; combinations of attributes, wrappers, namespaces and unusual values are unbounded.",
  [LIB, SER, DE, IMPLS, MSER, MDE], ["the value", "the document"],
  "derived ToXml::serialize and FromXml::deserialize, Accumulate implementations, scalar impls", ["to_string", "from_str"])

p("C02", "Output is namespace-well-formed XML",
  "Whenever to_string or to_writer succeeds for a value of a derived type, the output is one well-formed XML 1.0 document that also satisfies Namespaces in XML 1.0: tags balance, no attribute is given twice, and every prefix is declared where it is used. "
  "An independent conforming parser accepts it.",
  ["inputs", "programs"], "all derived types and all their values",
  "Tests compare a few outputs to literal strings; no test feeds output to another parser.",
  [SER, IMPLS, MSER], ["output text", "open elements"], "Serializer::write_start/write_attr/write_str/end_empty/write_close as called by derived code", ["to_string", "to_writer"])

p("C03", "Written names, namespaces, order and text are those the type defines",
  "The document written for a value has exactly the elements, attributes and text the type's definition prescribes: each in the namespace given by its own or its container's ns attribute (unprefixed attributes in none), with the name given by rename, rename_all or the identifier, in field order, and nothing for absent values. "
  "This holds at any nesting of types with different default namespaces, prefixes and force_prefix.",
  ["inputs", "programs"], "all derived types and all their values, nested in any way",
  "Tests look at single namespace configurations; what a prefix or default namespace means depends on all enclosing elements.",
  [SER, MSER, IMPLS, META, CASE], ["namespace bindings in scope", "output text"], "derived serialize code, Serializer::write_start", ["to_string, read by an independent namespace-aware parser"])

p("C04", "The serializer's namespace bookkeeping matches what it has written",
  "At every point of writing through Serializer, prefix(ns) only returns prefixes that the start tags written so far bind to ns at that point (or xml, which is always bound), and default_ns() is the default namespace in scope as the API documents it. "
  "Closing an element, also an empty one, restores exactly the bindings of its parent, and an attribute in a namespace without a prefix is refused instead of written.",
  ["histories", "inputs"], "all sequences of serializer calls that nest elements with arbitrary contexts",
  "Tests write two or three levels through derived code only; wrong bookkeeping shows in siblings that follow a shadowing or empty element.",
  [SER], ["prefixes map", "default_ns", "replaced and hidden bindings"], "write_start, hide, end_empty, write_close, restore", ["Serializer::prefix", "Serializer::default_ns", "output text"])

p("C05", "All text is escaped on output; characters XML forbids are refused",
  "Any string or char, written as element, attribute or direct text through any of the supported field types or display_to_xml, is read back as exactly the same string by an independent parser (that does not normalise white space) and by from_str. "
  "A value containing a character that XML 1.0 does not allow makes serialization fail instead of producing output.",
  ["inputs"], "all strings over all Unicode scalar values, in every position a string can be written",
  "Tests escape a handful of strings in some positions.",
  [IMPLS, SER], ["output text"], "escaping of str, String, Cow, char and Display values", ["to_string"])

p("C06", "Character and entity references decode exactly; malformed ones are errors",
  "In element text and in attribute values, the five predefined entities and decimal and hexadecimal character references of up to eight characters between & and ; decode to the character they stand for, whatever surrounds them. "
  "Any other use of & (unknown or unterminated entity, bad digits, out-of-range or forbidden character) is an error, never passed through or dropped.",
  ["inputs"], "all text and attribute values, all numbers in references",
  "The unit test of decode lists about 30 strings.",
  [DE], ["decode state machine"], "decode()", ["from_str into String, Cow<str> and AnyElement"])

p("C07", "Names are matched by namespace, never by prefix",
  "from_str gives the same value for any two documents that differ only in prefixes, in where and how often namespaces are declared, and in unused or shadowed declarations. "
  "Elements or attributes of the same local name in another namespace are different names: an unprefixed attribute is in no namespace, and an undeclared prefix on a name the type looks at is an error.",
  ["inputs", "programs"], "all derived types, all values, all equivalent placements of declarations",
  "Tests use a few fixed placements of declarations.",
  [DE, MDE], ["stack of namespace declarations"], "Context::lookup, element_id, attribute_id, default_ns", ["from_str", "Deserializer::element_id", "Deserializer::attribute_id", "AnyElement"])

p("C08", "No input makes deserialization panic, abort or hang",
  "For every string and every target type with the default limits, from_str returns a value or an error: it never panics, overflows the stack, aborts or fails to terminate. "
  "The same holds for pulling nodes from a Deserializer until it is exhausted.",
  ["inputs"], "all input strings, all target types",
  "Tests feed mostly valid documents.",
  [DE, IMPLS, ANY, MDE], ["parser state", "element stack"], "Context::next, Deserializer::next, nested, for_node, ignore, derived deserialize code", ["from_str", "Deserializer iterator"])

p("C09", "Documents that are not well-formed are rejected",
  "from_str fails for input that is truncated, has mismatched, missing or surplus end tags, has no root element, or has a second root element, text or other content after the root element. "
  "It also fails for broken tag, attribute, comment or CDATA syntax and for forbidden characters anywhere in the document, including in parts the target type ignores.",
  ["inputs"], "all documents with a syntax error at any position, any target type",
  "Tests reject a few malformed documents; truncation alone has one case per byte of every document.",
  [DE], ["element stack", "tokenizer position"], "Context::next, Deserializer::deserialize, ignore, end", ["from_str"])

p("C10", "Configured limits are enforced exactly",
  "A document is refused if an element has more than max_attributes attributes, is nested deeper than max_levels (the root is level 1), or declares more than max_ns_declarations prefixes, and not refused for these reasons otherwise. "
  "This holds at any position in the document, in ignored content too, for the defaults (64, 32, 32) and for limits set through with_limits, which apply to all that follows the root's start tag.",
  ["inputs", "configurations"], "all documents and all values of the limits",
  "Tests do not cover limits beyond one case each.",
  [DE], ["Limits", "stack depth", "pending attribute records"], "Context::next", ["from_str", "Deserializer::with_limits"])

p("C11", "Text is read whole across comments, CDATA sections and references",
  "Text that a document splits up by comments, CDATA sections and character references is read as the concatenation of its parts, wherever a type reads text. "
  "White space and empty pieces at any side of a split are kept.",
  ["inputs", "programs"], "all text values and all ways to split them, in all positions of all types",
  "Tests contain one CDATA section.",
  [DE, IMPLS], ["pending text"], "join_text, take_str, direct text fields", ["from_str"])

p("C12", "Order, unknown content, comments and white space do not change the value",
  "For structs with named fields, reordering the elements of different fields and the attributes, inserting unknown elements or attributes, and adding comments or white space between elements leaves the value unchanged. "
  "The XML declaration, comments around the root element, quote style, white space within tags and the form of empty elements make no difference for any type.",
  ["inputs", "programs"], "all derived types and values, all permutations and insertions",
  "Tests reorder or add at most one element.",
  [DE, MDE], ["field accumulators"], "derived deserialize loop, Deserializer::ignore", ["from_str"])

p("C13", "Required, optional and repeated fields have exactly their cardinality",
  "For a struct with named fields, a document that lacks a required element or attribute, or gives a single-valued field (also an optional one) twice, is rejected. "
  "An absent optional field is None, an absent list is empty, and list items are all kept, in document order, also when other elements come in between.",
  ["inputs", "programs"], "all derived types, all fields at any depth, 0, 1 and more occurrences",
  "Tests check a missing or doubled field for a few types.",
  [MDE, IMPLS, LIB], ["field accumulators"], "Accumulate::try_done, DuplicateValue checks", ["from_str"])

p("C14", "AnyElement captures an element completely",
  "Reading any element into AnyElement yields its namespace and name, every attribute in order with namespace and decoded value, all its text pieces concatenated, and all child elements in order, recursively. "
  "into_owned gives an equal value that does not depend on the input.",
  ["inputs"], "all well-formed documents within the limits",
  "Tests capture about a dozen small documents.",
  [ANY, DE], ["captured tree"], "AnyElement::deserialize, into_owned", ["from_str::<AnyElement>", "AnyElement fields of derived types"])

p("C15", "Scalars accept their documented lexical forms and nothing else",
  "Integers, floats, bool (true, false, 1, 0), char, IP addresses, dates and times, and scalar enums are read from exactly the texts that denote one of their values, with out-of-range, malformed, empty or trailing input refused with an error. "
  "It makes no difference whether the text is an element, an attribute, direct text or the content of a newtype.",
  ["inputs"], "all texts, all scalar types, all positions",
  "Tests read one or two numbers per type.",
  [IMPLS, MDE], ["parsed value"], "FromXml for scalars, from_xml_str, derived scalar enums", ["from_str"])

p("C16", "Borrowed fields point into the input; nothing is copied without need",
  "A Cow<str> field with borrow, and names, namespaces, values and text of an AnyElement, borrow from the input whenever the text stands there verbatim in one piece, and otherwise hold the decoded text. "
  "A borrowed slice always lies within the input and equals the value it stands for.",
  ["inputs"], "all documents, all borrowing positions",
  "Tests check two or three Cow values for being borrowed.",
  [DE, IMPLS, ANY, MDE], ["Cow values"], "borrow_cow_str, CowStrAccumulator, decode, join_text", ["address ranges of deserialized strings"])

p("C17", "Writing is deterministic and reports writer failures at once",
  "to_writer hands the writer exactly the text to_string returns, and writing the same value again gives the same text. "
  "If the writer fails, serialization stops, writes nothing more and returns the format error, and what was written before is a prefix of the document.",
  ["fault_sequences", "inputs"], "all values, a writer failing at any byte",
  "No test uses a failing writer.",
  [SER, LIB, IMPLS, MSER], ["writer"], "error propagation in Serializer and derived code", ["to_writer with a fault-injecting fmt::Write"])

p("C18", "Derive attributes map identifiers to names as documented",
  "rename_all with each of the eight documented rules, rename, ns and the grammar of its arguments (literals, constants, prefixes with dashes and dots), raw identifiers, and attributes split over several #[xml] lists produce the documented names, for fields, attributes and enum variants alike, on writing and on reading. "
  "All documented combinations compile, also in definitions that macros make, with the derives named by path, and whatever other names and traits are in scope.",
  ["programs"], "all identifiers, rules and attribute combinations in derived types",
  "Tests use a few identifiers with some of the rules.",
  [META, CASE, MLIB, MSER, MDE], ["parsed attribute metadata"], "meta item parsing, RenameRule", ["generated programs: compile, to_string, from_str"])

p("C19", "Enums and transparent structs select variants and fields unambiguously",
  "A forward enum writes exactly its variant's element and is read by the name and namespace of the element into the variant that defines it, or refused if no variant does; a scalar enum maps each variant to its text (rename, rename_all or discriminant) and refuses any other text. "
  "A transparent struct writes its fields directly into the parent element and reads each of them from there by name.",
  ["inputs", "programs"], "all forward, scalar and transparent types, all documents",
  "Tests have one or two enums of each sort.",
  [MLIB, MSER, MDE], ["selected variant"], "derived matches() and deserialize() of enums and transparent structs", ["to_string", "from_str"])

p("C20", "Time and memory grow linearly with the document",
  "Reading or writing a document takes an amount of memory allocation that is at most proportional to the document's size, whatever its shape: text split into many pieces, many references, siblings, attributes or declarations up to the limits. "
  "Running time grows no faster than in proportion either.",
  ["inputs"], "families of documents of growing size in every dimension the limits leave open",
  "No test measures anything; benchmarks use one document.",
  [DE, SER, IMPLS, ANY], ["allocated bytes", "work done"], "Context::next, join_text, decode, escaping", ["counting allocator, processor time"])

p("C21", "Serializer calls in the wrong state are refused without effect",
  "A Serializer method called where the document's state does not allow it (an attribute after the start tag, text or an end tag inside one, a start tag inside a start tag) returns an error, writes nothing and leaves the serializer as it was. "
  "Any sequence of accepted calls writes the document these calls describe.",
  ["histories"], "all sequences of Serializer calls, valid and invalid",
  "Tests only use the serializer through derived code.",
  [SER], ["serializer state"], "state checks in write_start, write_attr, write_str, end_start, end_empty, write_close", ["return values and output of direct calls"])

p("C22", "Pulling nodes is exact and isolated, however a caller descends, skips or resumes",
  "Iterating a Deserializer yields the attributes, text and child elements of its element, once and in document order, whatever mix of nested, for_node, take_str, ignore and deserialize is used for its children. "
  "A nested deserializer sees its own element and nothing else and, once exhausted or ignored, leaves its parent positioned right after that element; parent, element_id, attribute_id and namespace resolve as at that place in the document.",
  ["histories", "inputs"], "all documents and all schedules of pulling, descending and skipping",
  "Tests pull nodes by hand in one or two custom impls.",
  [DE], ["element stack", "pending records", "peeked node"], "Deserializer::next, nested, for_node, take_str, ignore, parent", ["nodes yielded to a caller"])

p("C23", "Memory safety and valid UTF-8",
  "No sequence of API calls on any input reads or writes outside live memory, leaks what it allocated, or yields a string that is not valid UTF-8 or outlives what it borrows from. "
  "Dropping values, also half-way through an error, is sound.",
  ["inputs", "histories"], "all inputs and API histories",
  "Tests run without sanitizers.",
  [DE, IMPLS, ANY, SER], ["heap", "borrowed strings"], "all string slicing and borrowing", ["AddressSanitizer, LeakSanitizer, Miri"])

p("C24", "Custom serialize_with and deserialize_with functions are called as documented",
  "A deserialize_with function is called once per occurrence of its field (element or attribute) with a deserializer for just that occurrence and the field's accumulator, and a serialize_with function once per value of an element field, and their errors end the whole operation. "
  "The values of all other fields are the same as without them.",
  ["inputs", "programs"], "all documents, fields and hook functions, also those that leave some of their element",
  "Tests have one hook of each sort.",
  [MDE, MSER, DE], ["field accumulator", "nested deserializer"], "derived calls of with-functions", ["recorded hook calls"])

p("C25", "Direct text fields hold exactly the element's own text",
  "A direct field is written as text after the child elements and read from the element's own text, wherever that stands among the child elements, never from the text of children. "
  "An absent or empty direct value writes no text but still all child elements, and a value for a direct field that is given in two separate places is refused.",
  ["inputs", "programs"], "all structs with a direct field, all values and documents",
  "Tests use a direct field with attributes only.",
  [MSER, MDE, IMPLS], ["direct accumulator"], "derived direct field code", ["to_string", "from_str"])

p("C26", "Errors name what is wrong",
  "When a document is refused, the error says why: a missing or repeated value is reported as MissingValue or DuplicateValue with the type and field it belongs to, however deeply nested, a text that is no value of its type as UnexpectedValue with that text (dates: as no valid date), an element in a scalar as ExpectedScalar with its name, another root element as UnexpectedValue with its name and namespace, a malformed reference as InvalidEntity with the reference, an undeclared prefix as UnknownPrefix with the prefix, an exceeded limit with what there is too much of, and a document that ends early never as a missing value. "
  "A character that XML forbids is named by the error of the value that cannot be written.",
  ["inputs", "programs"], "all derived types and documents with one defect, wherever it is",
  "Tests compare the errors of some twenty documents.",
  [DE, MDE, IMPLS], ["field names passed down", "error payloads"], "Error values", ["from_str", "to_string"])
