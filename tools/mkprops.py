#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
R = "src/yaml/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "An unedited document is written back byte for byte",
  "Whenever parsing accepts an input, writing the untouched document out gives exactly the input bytes, whatever the input looks like: comments, blank lines, tabs, carriage returns, directives and document markers, odd spacing in flow collections, bytes that are not UTF-8. The text form gives the same whenever the input is UTF-8. Reading the document through any accessor, or cloning it, changes nothing.",
  ["inputs"], "every byte string the parser accepts",
  "The tests compare a few dozen hand-written documents; the guarantee is over every byte string that parses, and each byte between two tokens has to be held by some prefix, suffix or original-text record.",
  [R+"parsing.rs", R+"raw.rs", R+"document.rs"],
  [("prefix/suffix capture of all whitespace and comments while parsing", R+"parsing.rs: ws, ws_nl, inline_sequence, inline_mapping, sequence, mapping_or_nul, start_of_document"),
   ("emission of prefixes, separators and original text", R+"raw.rs: display/write_to; document.rs: write_to")],
  ["yaml::from_slice then Document::write_to / to_string"])

p("C02", "Parsing any bytes finishes, without a crash, with a document or an error",
  "For every byte string, parsing returns in bounded time and memory with either a document or an error; it never panics, loops or exhausts memory, and it gives the same answer every time. An error carries a byte range that lies inside the input. An accepted document can be walked, printed and queried through every accessor without a panic.",
  ["inputs"], "every byte string whose nesting is at most a few hundred levels deep",
  "Tests parse only well-formed files; totality is about all malformed ones (unterminated quotes, stray indicators, NUL and non-UTF-8 bytes, odd indentation).",
  [R+"parsing.rs", R+"error.rs", R+"value.rs", R+"data.rs"],
  [("every scanning loop stops at end of input", R+"parsing.rs"), ("spans built from the cursor", R+"parsing.rs, error.rs"),
   ("typed access panics on a wrong node kind", R+"data.rs")],
  ["yaml::from_slice, Error::span, all accessors"])

p("C03", "The two ways of writing a document agree",
  "At every point of a document's life, freshly parsed or after any sequence of edits, the text form and the byte-writing form give the same bytes as long as the content is UTF-8. The same holds after a clone.",
  ["inputs", "histories"], "every UTF-8 document and every edit history on it",
  "Emission is written twice, once for text and once for bytes, per node kind; the tests compare them only on the documents they happen to print (a cfg for it exists but is not on in them).",
  [R+"raw.rs", R+"document.rs"],
  [("display and write_to of every raw node", R+"raw.rs")],
  ["Document::to_string vs Document::write_to"])

p("C04", "Reading a document gives the data YAML says it holds",
  "For a document in the supported part of YAML (nested block and flow collections, plain, quoted and block scalars, comments, directives), the tree seen through the accessors is the one the document was written to hold, and the one an independent YAML implementation reads: same kinds, keys, order, strings, numbers, booleans and nulls.",
  ["inputs"], "every document generated from a data tree by a YAML writer with free choice of style and layout",
  "A handful of examples cannot cover the product of container kinds, scalar styles, indentation, separators, comments and positions, and a misplaced node still round-trips.",
  [R+"parsing.rs", R+"value.rs", R+"any.rs", R+"mapping/mapping.rs", R+"sequence/sequence.rs"],
  [("indentation decides nesting", R+"parsing.rs: sequence, mapping_or_nul, indent"), ("scalar typing", R+"parsing.rs: value, number")],
  ["Value::as_any and typed getters"])

p("C05", "Layout does not change what is read",
  "Two inputs that differ only in layout are read as the same data: wider or narrower indentation, tabs or other whitespace as indentation, extra blank lines and comments, a value moved to the next line, line endings, spacing inside flow collections, block against flow style, a directive or document marker in front.",
  ["inputs"], "every data tree and every pair of layouts for it, including layouts other YAML parsers refuse (tab indentation)",
  "Needs the same data under many layouts at once; tests fix one layout per document.",
  [R+"parsing.rs", R+"raw.rs"],
  [("indentation counted in characters, any whitespace", R+"parsing.rs: indent_from; raw.rs: count_indent"), ("whitespace and comments skipped", R+"parsing.rs: ws_nl")],
  ["accessor tree of both documents"])

p("C06", "Setting a value changes only that value's text",
  "Giving a scalar value a new scalar (null, boolean, number, string or block string) replaces exactly the text of that value; every byte before and after it, including comments and spacing on the same line, is kept (where the old or new value is written as nothing, the spacing in front of it may come or go with it). The new text is the canonical spelling of a boolean, null or integer, and reads back as the value that was set. Replacing a collection by a scalar, or any value by a new collection, replaces the text of that value in the same way, except that spacing next to it may change: comments around it are kept.",
  ["inputs", "histories"], "every document, every value in it, every replacement value, and repeated replacement",
  "Tests replace a couple of values in fixed documents; an off-by-one in any original-text span shows up only for particular neighbours.",
  [R+"value_mut.rs", R+"raw.rs", R+"data.rs"],
  [("value replaced while its prefix and siblings stay", R+"value_mut.rs: set_*; data.rs: replace")],
  ["Document bytes before and after ValueMut::set_*"])

p("C07", "Adding or removing an entry touches nothing else",
  "Inserting or pushing an entry adds one contiguous piece of text holding that entry, and the rest of the document is kept byte for byte; a separator that the caller asks for is what stands between its key or dash and its value. Removing an entry takes out one contiguous piece holding that entry and at most the spacing, comment or comma next to it; what comes behind an entry of a block collection stays unless the entry was the first one, or unless it would become a part of a block scalar in front. Clearing a collection takes out its entries only. Removing never cuts a line ending in two. Asking to remove something that is not there changes nothing.",
  ["inputs", "histories"], "every document, every collection in it, and every insert, push, remove or clear on it",
  "The text of separators is shared between neighbours, so first/middle/last position, style and trivia all matter; tests have a handful of positions.",
  [R+"mapping/mapping_mut.rs", R+"sequence/sequence_mut.rs", R+"raw.rs"],
  [("item list edits plus generated prefixes", R+"mapping/mapping_mut.rs: inner_insert, remove, clear; sequence/sequence_mut.rs: inner_push, remove, clear")],
  ["Document bytes before and after each operation"])

p("C08", "A history of edits behaves like edits on plain data",
  "After any sequence of edits, the tree seen through the accessors equals the result of the same edits on an ordinary in-memory tree: set replaces, insert overwrites an existing key in place or appends a new one, push appends, remove deletes and says whether it did, clear empties, turning a value into a mapping or sequence keeps it if it already is one. Entries not addressed by an edit keep their value and order.",
  ["histories", "inputs"], "every document and every finite sequence of edit operations at any place of the tree",
  "Only single edits are tested; aliasing, dropped nodes and reused slots need sequences of operations.",
  [R+"value_mut.rs", R+"mapping/mapping_mut.rs", R+"sequence/sequence_mut.rs", R+"data.rs"],
  [("slab of nodes with explicit drop of replaced subtrees", R+"data.rs: replace, drop, drop_kind"), ("key lookup", R+"mapping/mapping_mut.rs")],
  ["accessors after every step"],
  [("slab", "all nodes of a document, addressed by id", R+"data.rs: Data"), ("strings", "interned text", R+"data.rs: Data")])

p("C09", "An edited document is still YAML holding the edited data",
  "If a document is standard YAML, then after any sequence of edits the text it is written as is still standard YAML, and both this crate and an independent YAML parser read from it exactly the data the edits produced (an emptied or never filled block collection reads as null).",
  ["histories", "inputs"], "every standard YAML document in the supported subset and every finite sequence of edits",
  "In-memory state and emitted text can diverge (indentation, separators, quoting) without any accessor noticing; tests compare a few fixed outputs.",
  [R+"raw.rs", R+"value_mut.rs", R+"mapping/mapping_mut.rs", R+"sequence/sequence_mut.rs"],
  [("computed indentation and prefixes of new nodes", R+"raw.rs: make_indent, new_block; make_prefix in mapping_mut.rs and sequence_mut.rs")],
  ["re-parse of Document::to_string by the crate and by libyaml"])

p("C10", "Any string that is set reads back as that string",
  "Whatever text is given as a string value, anywhere a string can be put and with automatic, single or double quoting, the document written out still reads back, here and in an independent YAML parser, as that very string and not as another type (of those in YAML's core schema) or with other content. Text around it is unaffected.",
  ["inputs"], "every UTF-8 string, every place (root, block and flow, key or item value), every way of setting it",
  "The set of strings that are unsafe unquoted is large and context dependent; tests try a few words.",
  [R+"raw.rs", R+"value_mut.rs", R+"parsing.rs"],
  [("choice of quoting", R+"raw.rs: RawStringKind::detect"), ("escaping", R+"raw.rs: escape_single_quoted, escape_double_quoted"), ("unescaping", R+"parsing.rs: double_quoted, single_quoted")],
  ["set_string, set_string_with, push_string, insert_str, then re-parse"])

p("C11", "Numbers are exact in every width, in and out",
  "A number in a document is offered by each typed getter exactly when its text denotes a value of that type, with exactly that value, and its source text is kept available. A number set through any typed setter reads back as the same value, immediately and after writing and re-parsing; things that only look like numbers stay strings. A float that is not finite is never turned into a number which is.",
  ["inputs"], "every integer from 8 to 128 bits and every float, every number-like text, every place and every setter",
  "Boundaries of twelve types times signs, exponents and contexts; doc-tests use one literal per type.",
  [R+"parsing.rs", R+"number.rs", R+"value.rs", R+"value_mut.rs", R+"sequence/sequence_mut.rs", R+"mapping/mapping_mut.rs"],
  [("number scanning", R+"parsing.rs: number"), ("typed getters", R+"value.rs, number.rs: as_number!"), ("setters", "set_number!/push_number!/insert_number! macros")],
  ["as_*, set_*, push_*, insert_*"])

p("C12", "Quoted scalars decode as YAML defines",
  "A single-quoted scalar denotes its text with doubled quotes halved; a double-quoted scalar denotes its text with every supported escape replaced by the character it names. Quoted text never becomes a number, boolean or null, and may hold any indicator, comment sign or separator.",
  ["inputs"], "every sequence of literal characters and supported escapes, as a value or a key, in block and flow context",
  "Tests try each escape once, alone, in a value at the root.",
  [R+"parsing.rs"], [("unquoting", R+"parsing.rs: single_quoted, single_quoted_escaped, double_quoted, double_quoted_escaped, unescape, unescape_unicode")],
  ["as_str of the value, keys of the mapping"])

p("C13", "Block scalars denote their lines",
  "A literal block scalar denotes its lines joined by newlines, a folded one its lines joined by spaces, with the final newline stripped, clipped or kept as its header says, and what follows a block scalar is read as it would be after any other value. A block scalar set through an edit reads back as the text it was given.",
  ["inputs"], "every list of lines, chomping mode, style, indentation and position (last or not, nested, root)",
  "The end of a block scalar depends on indentation, blank lines and end of file together; tests use three fixed shapes.",
  [R+"parsing.rs", R+"raw.rs"], [("block scanning", R+"parsing.rs: block"), ("block construction", R+"raw.rs: new_block")],
  ["as_str; set_block, push_block, insert_block"])

p("C14", "Malformed input is refused with the error that describes it",
  "Input broken in a recognised way is refused, never silently accepted: an unclosed or wrongly closed flow sequence or mapping, a flow mapping entry or block mapping line without a colon, an unknown escape, a bad hexadecimal or unicode escape, or content which belongs to nothing (after a complete value or document, or at an indentation no collection has). The error names that kind of fault and its range points at the offending place.",
  ["inputs"], "every well-formed document with one such fault introduced at any place",
  "No test looks at errors at all.",
  [R+"parsing.rs", R+"error.rs"], [("error sites", R+"parsing.rs: parse, inline_sequence, inline_mapping, mapping_or_nul, unescape, unescape_unicode")],
  ["Error::kind, Error::span"])

p("C15", "Value ids stay valid and clones are independent",
  "An id taken from a value keeps denoting that same value as long as the value has not been removed or replaced by an edit of its own or an enclosing value, no matter what is edited elsewhere. A clone of a document understands the same ids, and no edit of one copy is ever visible in the other.",
  ["histories"], "every document, set of remembered ids and sequence of edits on two diverging copies",
  "Needs histories in which slots are freed and reused between taking and using an id.",
  [R+"data.rs", R+"document.rs"], [("slab keyed ids", R+"data.rs: insert, drop, replace"), ("deep clone", R+"document.rs: Clone")],
  ["Document::value, Document::value_mut, Document::clone"])

p("C16", "The ways of looking at a collection agree with each other",
  "Length, emptiness, lookup by position or key, first, last, and iteration forwards, backwards, from both ends and with skipping all describe the same list of entries in document order; lookup of a key gives its first entry. Mutable access reaches the same entries as shared access, and each type-specific view answers only for values of its type.",
  ["inputs", "histories"], "every collection, every index or key, every interleaving of iterator steps from both ends",
  "Iterators are only driven forwards in the tests.",
  [R+"sequence/sequence.rs", R+"sequence/iter.rs", R+"mapping/mapping.rs", R+"mapping/iter.rs", R+"any.rs", R+"any_mut.rs", R+"value.rs", R+"value_mut.rs"],
  [("iterators over item ids", R+"sequence/iter.rs, "+R+"mapping/iter.rs")],
  ["Sequence, Mapping, Iter, Any, AnyMut"])

p("C17", "Serializing a value gives the data the accessors show",
  "Serializing a document's value with serde, parsed or edited, gives exactly the tree the accessors show: same structure, keys, order, strings, booleans, nulls and numbers. A number is serialized with its exact value, and bytes that are not UTF-8 are kept. An error of the serializer comes back unchanged.",
  ["inputs", "histories"], "every document, edited or not, and every serialization format",
  "Two documents are serialized in tests; the number path has one branch per width.",
  [R+"serde/ser.rs"], [("Serialize for Value, Sequence, Mapping", R+"serde/ser.rs"), ("number width hint", R+"mod.rs: serde_hint")],
  ["serde::Serialize of Document::as_ref()"])

p("C18", "Deserializing from a value gives the data the accessors show",
  "Deserializing a document's value into any type either gives the data the accessors show or returns an error, and never crashes or loops. Every type that an established YAML deserializer builds from the same document (numbers of all widths, options, tuples, lists, maps with text keys, structs, enums, newtypes, self-describing trees) is built here too, with the same content; whether text can be made from a number, boolean or null is left open. An error raised by the type being built comes back.",
  ["inputs", "programs"], "every document, edited or not, and every target type, matching or not",
  "One struct is deserialized in the tests.",
  [R+"serde/de.rs"], [("Deserializer for Value", R+"serde/de.rs"), ("key deserializer", R+"serde/de.rs: BStrDeserializer")],
  ["serde::Deserialize through Document::into_deserializer"])

p("C19", "A saved editing snapshot restores the same document",
  "A document saved through the editing-snapshot feature and loaded again prints the same bytes, shows the same data, knows the same ids, and reacts to any further edits exactly as the original would. This holds at any point of an edit history, for any content including bytes that are not UTF-8.",
  ["histories", "inputs"], "every document at every point of any edit history, followed by any further history",
  "No test saves a snapshot.",
  [R+"document.rs", R+"data.rs", R+"raw.rs"], [("derived Serialize/Deserialize of all document state", R+"document.rs, data.rs, raw.rs")],
  ["serde round trip of Document, then edits on both"])

p("C20", "A failing output is reported and never corrupts what was written",
  "Writing to an output that accepts bytes a few at a time gives the same bytes as writing at once. If the output fails at any point, writing returns that error, and what the output has received is a prefix of the full text; the document stays usable and writes out in full afterwards. Likewise, an output that panics, or lines handed to a block that panic while they are read, leave the document as it was.",
  ["fault_sequences", "inputs"], "every document, every point at which the output fails or stops short, every pattern of short writes and interruptions",
  "No test writes to anything but memory.",
  [R+"document.rs", R+"raw.rs"], [("write_all/? on every write", R+"raw.rs: write_to; document.rs: write_to")],
  ["Document::write_to with a fault-injecting writer"])

p("C21", "Optional features do not change how documents behave",
  "Built with any set of its optional features, the library parses, reads, edits and writes every document in the same way: same acceptance and errors, same data, same output bytes.",
  ["configurations", "inputs", "histories"], "every feature set, document and edit history",
  "Tests run with all features on; the number type hint, the node types and the dependencies differ by feature.",
  [R+"mod.rs", R+"raw.rs", R+"data.rs", "Cargo.toml"], [("cfg(feature) code", R+"mod.rs: serde_hint; cfg_attr derives")],
  ["output of the same program built per feature set"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
