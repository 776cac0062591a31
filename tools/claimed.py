CLAIMED.update({
 'C03':(PBT+'random edit histories on generated and mutated documents; oracle: text form, written bytes and the same of a clone are equal after every edit',
        'Searched, not proved. Agreement of two outputs; what they should be is decided by the other properties.'),
 'C08':(PBT+'model-based edit histories; oracle: the same edits on an ordinary in-memory tree, compared through every accessor after every edit',
        'Searched, not proved; histories of up to 12 edits on documents of up to 14 values.'),
 'C09':(PBT+'model-based edit histories on standard YAML documents; oracle: the edited model, read back by the crate and by libyaml after every edit',
        'Searched, not proved; histories of up to 8 edits. The starting document is standard because libyaml says so.'),
 'C15':(PBT+'model-based histories over several clones with ids taken at random; oracle: per-copy model, ids resolved to where the model has the value, bytes of the other copies',
        'Searched, not proved; up to 5 copies and 14 steps.'),

 'C06':(PBT+'scalars of rendered documents set one or more times, the renderer knowing which bytes belong to which value, and sets after edit histories with the place found by a marker; oracle: bytes outside are unchanged, canonical spelling, read back by the crate and libyaml',
        'Searched, not proved.'),
 'C07':(PBT+'inserts, pushes, removals and clears on rendered documents with known entry positions and after edit histories; oracle: a single contiguous piece differs and holds the entry plus at most spacing, comments and one comma',
        'Searched, not proved.'),

 'C10':(PBT+'random strings (awkward words, indicators, escapes, control and wide characters, several lines) set with every way of quoting at every place of a document; oracle: read back by the crate and by libyaml as that very string, all around it unchanged',
        'Searched, not proved; control characters and other things YAML cannot hold are judged by the crate alone.'),
 'C11':(PBT+'number texts around the limits of every width and at random, in nine kinds of places, and numbers set through every setter; oracle: integer arithmetic in 128 bits, the standard library for floats',
        'Searched, not proved; finite floats.'),
 'C12':(PBT+'quoted scalars made of random literal pieces and escapes as values and keys; oracle: what the pieces denote, and libyaml',
        'Searched, not proved; the escapes the parser supports.'),
 'C13':(PBT+'documents whose values are mostly block scalars of every header, indentation and position, and block scalars set through edits; oracle: the lines they were made from, and libyaml',
        'Searched, not proved; no indentation indicators, no blank lines in folded scalars.'),
 'C14':(PBT+'one fault of a known kind put at a known place of a document rendered from a random tree; oracle: the kind of error and the range that belong to the fault, and libyaml refusing the same text',
        'Searched, not proved; the faults the error kinds describe.'),
 'C16':(PBT+'all lookups, random programs over the iterators from both ends, mutable access and type-specific views of every value of documents after random edits; oracle: the tree the document was made from and the ids of plain iteration',
        'Searched, not proved.'),
 'C17':(PBT+'documents with numbers of every size, after random edits, serialized whole and in parts into a recording serializer and into JSON, CBOR and YAML; oracle: the tree the accessors show, numbers exact',
        'Searched, not proved.'),
 'C18':(PBT+'values of documents after random edits deserialized into types chosen at run time for them or against them, and random values of derived types laid out as random documents; oracle: the tree the accessors show, serde_yaml on the same text, and the original value',
        'Searched, not proved; conversions between kinds of scalars are left open.'),
 'C19':(PBT+'documents at random points of edit histories saved and loaded as JSON, CBOR and YAML, then edited in lockstep with the original; oracle: the original document, its ids and the tree it should hold',
        'Searched, not proved; self-describing formats.'),
 'C20':(PBT+'fault injection: writing random documents to outputs which fail at every byte and every call in turn, take a few bytes at a time and are interrupted; oracle: the full text and the error the output gave',
        'Every failure point of each generated document (sampled for long ones); documents are searched, not proved.'),
 'C21':(PBT+'random documents and edit histories run by the same program built with every set of optional features; oracle: the other builds',
        'Searched, not proved; one build profile.'),
})
