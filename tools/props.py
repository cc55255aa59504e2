import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
RS='crates/planus-codegen/src/rust/mod.rs'; TPL='crates/planus-codegen/src/templates/rust'
TR='crates/planus-translation/src/intermediate_language/translation.rs'; AC='crates/planus-translation/src/ast_convert.rs'
p('C01','Reading untrusted bytes is memory safe, panic free and terminates',
 'For any byte string and any accepted schema, reading it as any table of the schema through the generated accessors, iterators, vectors, owned conversions and Debug output either yields values or returns an error. It never panics, never reads outside the given bytes, never has undefined behaviour, and every single accessor call terminates in time bounded by the buffer size (conversions and Debug output follow nesting as deep as the stack permits); any string handed out is valid UTF-8.',
 ['inputs','programs'],'all byte strings (random, truncated, bit-flipped, pointer-crafted) x all schemas x all accessor call sequences',
 'The tests read a handful of well-formed files and one malformed one; the space of offsets, vtable lengths, element counts and tags that must be rejected is unbounded.',
 ['crates/planus/src/slice_helpers.rs','crates/planus/src/table_reader.rs','crates/planus/src/vectors/vector.rs','crates/planus/src/union_vectors/union_vector.rs','crates/planus/src/impls',RS],
 [('bounds-checked slice access relative to a table/vector start','crates/planus/src/slice_helpers.rs'),('vtable length and offset checks','crates/planus/src/table_reader.rs'),('element count times stride checked once, then unchecked element reads','crates/planus/src/vectors/vector.rs')],
 ['generated *Ref accessors','planus::Vector / UnionVector and their iterators'])
p('C02','Written values read back unchanged',
 'Any value tree expressible in an accepted schema, serialized into a builder through any of the generated writing interfaces (owned structs, create functions, field builders, nested or via pre-created offsets) and finished, reads back as the same value: each accessor yields what was written, an unset field its default or absence, and converting the reference type to the owned type yields an equal owned value.',
 ['inputs','programs'],'all schemas x all values (boundary scalars, NaN bits, empty and large vectors, nested tables/unions/strings) x all writing interfaces',
 'The tests round-trip a few dozen fixed values on fixed schemas; correctness must hold for every field mix, order, alignment and nesting.',
 ['crates/planus/src/builder.rs','crates/planus/src/backvec.rs','crates/planus/src/table_writer.rs','crates/planus/src/impls','crates/planus/src/table_reader.rs',RS,TPL],
 [('back-to-front builder with delayed padding','crates/planus/src/builder.rs'),('table writer that lays out vtable and inline data','crates/planus/src/table_writer.rs'),('generated WriteAs*/create/builder code','crates/planus-codegen/src/templates/rust')],
 ['generated builder API and *Ref accessors','TryFrom<*Ref> for owned'])
p('C03','Written buffers are valid FlatBuffers with the contents the schema assigns',
 'Every buffer the builder finishes obeys the FlatBuffers binary format: root offset and optional file identifier, all offsets in bounds and pointing to the right kind of object, every scalar, struct, vector and offset aligned relative to the buffer start, vtables well formed and non-overlapping with data, strings null terminated. Decoded by a reader that knows only the schema and the format specification (declaration order or id attributes for slots, ids for union tags, explicit values for enums), it contains exactly the written values.',
 ['inputs','programs'],'all schemas x all values x all writing interfaces x all buffer growth/alignment states',
 'The tests compare a few files against flatc output (and skip that here); a writer bug symmetric with the reader is invisible to round-trip tests.',
 ['crates/planus/src/builder.rs','crates/planus/src/backvec.rs','crates/planus/src/table_writer.rs','crates/planus/src/impls/slice.rs','crates/planus/src/impls/str.rs','crates/planus/src/impls/array.rs','crates/planus/src/union_vectors',RS,TR],
 [('prepare_write / alignment bookkeeping','crates/planus/src/builder.rs'),('vtable emission','crates/planus/src/table_writer.rs'),('slot and size computation','%s, crates/planus-codegen/src/backend_translation.rs'%TR)],
 ['Builder::finish output bytes'])
p('C04','Buffers from any conforming FlatBuffers writer are read correctly',
 'A buffer produced by any conforming writer for the same schema, whatever its choice of object order, padding, vtable placement, sharing or truncation, explicit or elided default values, and shared sub-objects, is read by the generated code as exactly the values it encodes, without errors.',
 ['inputs','programs'],'all schemas x all values x all layout choices the format permits',
 'The tests only read what this writer produces plus a few stored files; other layouts (vtable after the table, trailing-slot truncation, explicit NONE) never occur.',
 ['crates/planus/src/table_reader.rs','crates/planus/src/impls','crates/planus/src/vectors','crates/planus/src/union_vectors',RS],
 [('vtable lookup relative to the object','crates/planus/src/table_reader.rs'),('offset and struct readers','crates/planus/src/impls'),('generated accessors','crates/planus-codegen/src/templates/rust')],
 ['generated *Ref accessors'])
p('C05','Schema evolution keeps old and new data readable',
 'When a schema is evolved in the ways FlatBuffers permits (fields appended, deprecated or re-ordered with ids, enum or union variants appended), data written with either version is read with the other: common fields read back unchanged, fields the writer did not know read as default or absent, and enum or union tags the reader does not know are reported as an unknown-tag error on that access only, leaving everything else readable. Deprecated fields keep their slot.',
 ['inputs','programs','histories'],'all schema pairs related by permitted evolution steps x all values, in both directions',
 'No test uses two versions of one schema; slot assignment with deprecated fields and ids only matters across versions.',
 [TR,'crates/planus-codegen/src/backend_translation.rs',RS,'crates/planus/src/table_reader.rs','crates/planus/src/errors.rs'],
 [('id/declaration order slot assignment',TR),('unknown tag errors','crates/planus/src/errors.rs'),('default on short vtable','crates/planus/src/table_reader.rs')],
 ['generated *Ref accessors of one version on bytes of another'])
p('C06','De-duplication caches never change what a buffer contains',
 'With the vtable, string and bytes caches enabled in any combination, any sequence of builder operations yields a valid buffer with the same logical contents as without caches, in which every offset handed out still denotes the data it was created for. Equal vtables (strings, byte vectors) are stored once per buffer, and entries never leak into a buffer started after clear().',
 ['inputs','histories','configurations'],'all feature combinations x all operation histories including hash collisions, growth, and clear()',
 'Tests exercise one cache case; stale or misaligned cache hits need particular histories (growth, clear, equal prefixes, equal hashes).',
 ['crates/planus/src/builder_cache.rs','crates/planus/src/builder.rs','crates/planus/src/impls/str.rs','crates/planus/src/impls/byte_slice.rs'],
 [('hash table from content to position','crates/planus/src/builder_cache.rs'),('invalidation on clear','crates/planus/src/builder.rs')],
 ['Builder output bytes per feature set','returned Offsets'],
 [('vtable/string/bytes cache','content hash to position from the end','crates/planus/src/builder.rs')])
p('C07','A reused or pre-sized builder behaves exactly like a fresh one',
 'After clear(), or when created with any capacity, a builder produces for any sequence of operations byte for byte the buffer a fresh builder produces for that sequence, regardless of what it wrote before (including abandoned, unfinished work). The finished slice starts with the root offset, then the file identifier when one is given, and stays identical on repeated as_slice calls; the same sequence always yields the same bytes.',
 ['histories','inputs'],'all operation sequences, abandoned prefixes, capacities and file identifiers',
 'One test calls clear() between two writes; leftovers in alignment or padding state show only for particular histories.',
 ['crates/planus/src/builder.rs','crates/planus/src/backvec.rs'],
 [('clear / delayed_bytes / alignment mask','crates/planus/src/builder.rs'),('growing backwards vector','crates/planus/src/backvec.rs')],
 ['Builder::finish / as_slice'],
 [('alignment_mask, delayed_bytes','largest alignment and pending padding','crates/planus/src/builder.rs')])
p('C08','Defaults, absence and required fields follow the schema',
 'A field set to its schema default (or explicitly as default) takes no space in the table and reads back as that default; an unset optional field reads as absent and is distinct from one set to any value, including zero, empty and false; a present value other than the default is always stored. Reading a table that lacks a required field reports a missing-required error for that field only, and the owned Default of a table has exactly the schema defaults.',
 ['inputs','programs'],'all field kinds x default kinds (numeric, enum, bool, vector, null, required) x all values including those equal or close to the default',
 'Tests cover a few scalar defaults; the matrix of type x default x written value x interface is large and elision errors only show when value and default relate in a special way.',
 [RS,TPL,'crates/planus/src/impls','crates/planus/src/table_reader.rs'],
 [('WriteAsDefault / WriteAsOptional','crates/planus/src/impls'),('generated Default and accessors',RS),('access / access_required','crates/planus/src/table_reader.rs')],
 ['presence of slots in written vtables','generated accessors and Default impl'])
p('C09','Vectors behave like immutable slices of their elements',
 'For every element type, a vector read from a buffer agrees with the slice of its elements under every operation it offers: len, is_empty, get, first, last, sub-ranges, splitting, chunking and conversion, and forward, backward, skipping and length-hinted iteration in any interleaving. Out-of-range requests yield None or the documented panic, never another element.',
 ['inputs','histories'],'all element types and lengths x all operation sequences on vectors, union vectors and their iterators',
 'There are no tests for mixed forward/backward/nth sequences, sub-ranges of union vectors or non-trivial strides.',
 ['crates/planus/src/vectors/vector.rs','crates/planus/src/vectors/iterators.rs','crates/planus/src/union_vectors/union_vector.rs','crates/planus/src/union_vectors/iterators.rs','crates/planus/src/impls/byte_slice.rs'],
 [('index arithmetic with STRIDE','crates/planus/src/vectors'),('paired tag and offset vectors','crates/planus/src/union_vectors')],
 ['planus::Vector, VectorIter, UnionVector, UnionVectorIter'])
p('C10','Runtime has no undefined behaviour, leaks, double drops or data races',
 'No safe use of the runtime, the generated code and the array initialisation cursor executes undefined behaviour: no uninitialised bytes reach a finished buffer, no out-of-bounds or misaligned access, no double drop or leak when an element read fails or panics midway. Readers of one buffer may be used from many threads at once, and each sees the same values.',
 ['inputs','schedules','fault_sequences'],'all writing/reading workloads, error or panic positions inside array initialisation, and thread interleavings of readers',
 'Ordinary tests cannot observe undefined behaviour or uninitialised reads at all.',
 ['crates/planus/src/backvec.rs','crates/planus/src/builder.rs','crates/planus/src/impls/array.rs','crates/planus/src/table_writer.rs','crates/array-init-cursor/src/lib.rs','crates/array-init-cursor/src/util.rs'],
 [('MaybeUninit buffer with front pointer','crates/planus/src/backvec.rs'),('drop guard for partially initialised arrays','crates/array-init-cursor/src')],
 ['Miri, AddressSanitizer and ThreadSanitizer reports','drop counters'])
p('C11','Owned and reference views of one value agree',
 'For every value, the derived views agree with the data: cloning, equality, ordering and hashing of owned values follow their contents, serialization to and from JSON-like formats restores an equal owned value under the schema names, the Debug output of a reference shows precisely its present fields and their values, and enum conversions to, from and between integers, names and variant lists are mutually consistent.',
 ['inputs','programs'],'all schemas x all values x all generated trait implementations',
 'Tests snapshot Debug output of a few values; consistency between implementations is not examined.',
 [RS,TPL],
 [('generated derive lists and trait impls',TPL),('Eq/Hash/Ord analysis','crates/planus-codegen/src/rust/analysis.rs')],
 ['Debug, PartialEq, Ord, Hash, Serialize/Deserialize, TryFrom impls of generated types'])
p('C20','The compiler answers every input with success or diagnostics',
 'For any set of schema files, however malformed (arbitrary bytes, truncated or mutated schemas, missing or cyclic includes, extreme literals, deep nesting within stated limits), checking, translating, generating code and formatting terminate and either succeed or report at least one error. They never panic, abort, overflow or hang, and never fail silently.',
 ['inputs','programs'],'all byte strings and file sets as schemas, for all compiler commands',
 'The tests hold about a hundred hand-written schemas; robustness concerns all texts.',
 ['crates/planus-lexer/src','crates/planus-translation/src','crates/planus-codegen/src','crates/planus-cli/src'],
 [('error-recovering lexer and parser','crates/planus-lexer/src, crates/planus-translation/src/parser'),('diagnostic context','crates/planus-translation/src/ctx.rs')],
 ['return value, stderr and exit status of check/rust/dot/format'])
p('C21','Every accepted schema generates Rust code that compiles',
 'For every schema set the compiler accepts, the generated Rust module compiles against the runtime crate with no errors, whatever identifiers (keywords, colliding after case conversion, shared with generated helper names), namespaces, defaults, attributes and recursion it uses. Generating twice from the same input gives identical text.',
 ['programs','inputs'],'all accepted schema sets',
 'Only fixed example schemas are compiled; name mangling and per-feature templates interact combinatorially.',
 [RS,'crates/planus-codegen/src/rust/analysis.rs','crates/planus-codegen/src/backend_translation.rs','crates/planus-codegen/src/backend.rs',TPL],
 [('name reservation and keyword escaping','crates/planus-codegen/src/backend.rs'),('templates',TPL),('derive analysis','crates/planus-codegen/src/rust/analysis.rs')],
 ['rustc on the generated text'])
p('C22','The compiler accepts exactly the valid schemas',
 'A schema that obeys the language rules (types resolvable, structs fixed-size and acyclic, ids consecutive and complete, attributes where permitted, defaults of the right kind and range, required only where meaningful, enum values unique and in range, one declaration per name, known attributes) is accepted; a schema violating any one of these rules is rejected with an error. Accepting is independent of unrelated declarations, and options that downgrade a rule (unknown attributes anywhere, misplaced documentation) affect that rule only.',
 ['programs','inputs','configurations'],'all valid schemas and all single-rule violations placed anywhere in them, under all converter options',
 'The invalid-schema tests contain one example per rule in one position; a rule must hold for every type, position and boundary value.',
 [TR,AC,'crates/planus-translation/src/intermediate_language/ast_map.rs'],
 [('checks during AST conversion',AC),('semantic checks during translation',TR)],
 ['translate_files result and diagnostics'])
p('C23','Struct and table layouts follow the FlatBuffers rules',
 'Each struct has the offsets, padding, size and alignment the FlatBuffers rules give it: members in declaration order at multiples of their alignment, alignment the maximum of the members and any force_align, size rounded up; nested structs are embedded whole. Table fields get the vtable slots that declaration order or id attributes give them, a union occupying two, and both the translated declarations and the bytes actually written agree with this.',
 ['programs','inputs'],'all struct nestings, member orders, force_align values and id permutations',
 'Tests contain a few structs; layout arithmetic must hold for all combinations of member sizes and alignments.',
 [TR,RS,'crates/planus-codegen/src/backend_translation.rs'],
 [('struct offset/padding computation',TR),('vtable index assignment',TR),('generated struct writers and readers',RS)],
 ['Declarations (offsets, sizes, slots)','bytes of written structs and vtables'])
p('C24','Names resolve by namespace and include rules',
 'A type reference denotes the declaration found by searching its (possibly qualified) name from the current namespace outwards to the root, among the file itself and the files it includes directly or transitively, regardless of the order of declarations and of inclusion, duplicate includes, include cycles and path spelling. References to anything else are errors, and the same set of files gives the same declarations whatever order the command line lists them in.',
 ['programs','configurations'],'all file sets, include graphs, namespace trees and reference spellings',
 'Tests use a few fixed include chains.',
 ['crates/planus-translation/src/intermediate_language/ast_map.rs',TR,'crates/planus-translation/src/ctx.rs'],
 [('include graph traversal and reachable namespaces','crates/planus-translation/src/intermediate_language/ast_map.rs'),('outward lookup',TR)],
 ['types recorded in the translated declarations'])
p('C25','Literals in schemas keep their exact value',
 'Every number, boolean, enum value and string literal the compiler accepts, in any notation (decimal, hexadecimal, separators, signs, exponents, special floats, enum names), takes effect as the exact value it denotes (floating point literals as the nearest value of their type): as enum discriminant, union tag or field default, in the translated declarations and in the generated code. Implicit enum values continue from the previous one, and values that do not fit the type are errors, never wrapped or truncated.',
 ['inputs','programs'],'all literals for all scalar types and positions',
 'Tests use few literals; range edges, separators and hexadecimal forms for each width are absent.',
 [AC,TR,'crates/planus-lexer/src','crates/planus-types/src/ast.rs',RS],
 [('literal parsing and range checks',AC),('default assignability',TR),('literal printing in generated code',RS)],
 ['Declarations','generated accessors on an empty table','enum discriminants'])
p('C26','Formatting preserves meaning and comments and is idempotent',
 'Formatting an error-free schema yields text that is accepted and denotes the same declarations (names, types, ids, defaults, attributes, docstrings, order), keeps every comment, and is a fixed point of formatting. A file with syntax errors is not formatted unless errors are explicitly ignored, and then no token outside the erroneous region is lost or altered.',
 ['inputs','programs'],'all schemas and their textual variants (whitespace, comments anywhere, literals, escapes)',
 'No test formats anything but a few files; comment and literal placement is combinatorial.',
 ['crates/planus-translation/src/pretty_print.rs','crates/planus-translation/src/lib.rs','crates/planus-types/src/cst.rs'],
 [('concrete syntax tree printer','crates/planus-translation/src/pretty_print.rs')],
 ['format_file output'])
p('C27','Diagnostics name the file and place of the fault',
 'When a schema set is rejected because of one fault, at least one reported error points at the file and the line on which the offending construct is written, in whichever included file it lies, and files that neither contain the fault nor refer to what the faulty file declares are not blamed. Several independent faults are all reported in one run, and every error makes the command fail.',
 ['inputs','programs'],'all single-fault and multi-fault schema sets',
 'The stored stderr files pin a few messages; correctness of positions for all constructs, encodings and files is not examined.',
 ['crates/planus-translation/src/ctx.rs','crates/planus-translation/src/error.rs',AC,TR],
 [('labels with file id and span','crates/planus-translation/src/ctx.rs')],
 ['stderr of planus check'])
p('C28','The dot output shows exactly the schema',
 'For any accepted schema set the dot graph contains one node per declaration with its fields (deprecated ones excepted) or variants and one edge per reference between declarations, with text properly escaped so that the output is syntactically valid DOT, and is deterministic.',
 ['programs'],'all accepted schema sets',
 'One stored example is compared; escaping and reference kinds are not.',
 ['crates/planus-codegen/src/dot/mod.rs','crates/planus-codegen/src/backend_translation.rs'],
 [('dot backend and templates','crates/planus-codegen/src/dot, crates/planus-codegen/src/templates')],
 ['generate_dot output'])
p('C29','Commands write complete output on success and nothing on failure',
 'Each command exits successfully exactly when it did what was asked: on success the requested output is complete and equal to what the library produces for these files and options; when the schema has errors, a file is missing or the output cannot be written, the exit status is non-zero, a message says why, and existing output files stay untouched. No command modifies its input files.',
 ['inputs','configurations','fault_sequences'],'all commands x options x valid and invalid inputs x unwritable or missing paths',
 'The command-line tests only look at check and two fixed outputs.',
 ['crates/planus-cli/src/main.rs','crates/planus-cli/src/app'],
 [('translate, then generate, then write','crates/planus-cli/src/app/rust.rs, crates/planus-cli/src/app/dot.rs')],
 ['exit status, stdout, stderr and file system after planus commands'])
p('C30','Documentation comments reach the item they document, verbatim',
 'Each documentation comment in a schema appears, in full and in order, as documentation of the generated Rust item for the declaration, field, variant or namespace it precedes, and of no other; arbitrary text in it cannot break or alter the generated code. Ordinary comments do not become documentation, and misplaced documentation comments are reported unless that is switched off.',
 ['inputs','programs','configurations'],'all comment texts and positions in all schemas',
 'Tests contain a few benign docstrings; placement and hostile text are not covered.',
 ['crates/planus-translation/src/ctx.rs',AC,'crates/planus-codegen/src/rust','crates/planus-codegen/src/templates'],
 [('docstring collection and stray docstring errors',AC),('docstring rendering',TPL)],
 ['doc attributes in the parsed generated code'])
p('C40','The buffer inspector shows the true contents of a buffer',
 'For any conforming buffer, the inspection view covers every object reachable from the root at its true byte range with the right type and field names, shows the value each field really has, and finds for every byte the objects that contain it; padding belongs to no field. Viewing never panics and works for every schema feature, layout and conforming writer.',
 ['inputs','programs'],'all schemas x all conforming buffers x all bytes and lines',
 'There is no test for the inspection crates.',
 ['crates/planus-buffer-inspection/src'],
 [('object model over raw bytes','crates/planus-buffer-inspection/src/object_info.rs'),('interpretation search','crates/planus-buffer-inspection/src/object_mapping.rs')],
 ['InspectableFlatbuffer, ObjectMapping, line trees, interpretations'])
p('C41','The interactive viewer does what its keys say, at any size, for any key sequence',
 'Whatever keys are pressed, in any order and any dialog, and whatever the terminal size, the interactive viewer keeps running without a panic on a conforming buffer until asked to quit (q, ctrl-c, or escape with nothing to return to), and then restores the terminal. The cursor always stays on a byte of the buffer; every move, jump, followed offset and step back in the history lands where requested and keeps the history intact. The screen shows the bytes of the buffer, the lines, ranges and interpretations the inspection has for the cursor, and marks the cursor.',
 ['histories','inputs'],'all key sequences x terminal sizes x conforming buffers',
 'There is no test for the viewer.',
 ['crates/planus-inspector/src'],
 [('key handling state machine','crates/planus-inspector/src/lib.rs'),('drawing','crates/planus-inspector/src/ui.rs')],
 ['Inspector::on_key, ui::draw on a test terminal'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import re
for d in P:
    n=len(re.findall(r'[.!?](?:\s|$)',d['statement']))
    if n>3: print(d['id'],n)
print(len(P))
