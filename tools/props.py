import json
R=[]
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    a["observe_at"]=obs or ["JSON returned by the library's convert calls", "output of the avdl command"]
    a["hook_needed"]=None
    R.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
P("P01","Each named type is defined exactly once, before its first use",
  "In every emitted protocol or schema JSON, each named type that is used or declared is written out in full exactly once, and every other mention is a name reference that comes after (or inside) that definition in document order. In a protocol, a type that is declared is present whether or not anything refers to it.",
  ["inputs"],"every accepted IDL program: any set of records, enums, fixeds and errors in any namespaces, mutually recursive or forward-referencing, used from fields, messages, unions, arrays and maps",
  "The order of definitions depends on the whole reference graph; the golden files exercise a few fixed graphs only.",
  ["model/json.rs","compiler.rs"],
  [("protocol/schema serialisation with a set of already written names","model/json.rs"),("inlining of forward references through a lookup of declared schemas","model/json.rs: build_lookup, schema_to_json")],
  [("known names","full names already defined in the document","model/json.rs")])
P("P02","The emitted JSON means exactly the declared schema",
  "Reading the emitted JSON back with the Avro specification's rules (name resolution against the enclosing namespace, attributes per kind) yields exactly the schema the IDL declared: same kinds, full names, fields in order, docs, aliases, defaults, sort orders, symbols, sizes, properties, messages. No part is lost, added, re-ordered or re-targeted.",
  ["inputs"],"every accepted IDL program",
  "A round trip over all nestings of types, namespaces and properties is an infinite set; golden tests compare a few outputs textually.",
  ["reader.rs","model/schema.rs","model/json.rs","model/protocol.rs","compiler.rs"],
  [("parse-tree walk building the schema model","reader.rs: walk_*"),("serialisation of the schema model","model/json.rs: schema_to_json, field_to_json, message_to_json, protocol_to_json")])
P("P03","Every accepted name reference resolves; undefined names are rejected",
  "If conversion succeeds, every type name mentioned in the output (or in a declared message, parameter, response or throws clause that is part of it) denotes a type that is declared or imported, under the namespace rules. If any such reference denotes no declared type, conversion fails and the error names every undefined name.",
  ["inputs","configurations"],"every program and set of imported files, with references at any depth (array, map, union, field, parameter, response, errors, imported JSON)",
  "Each position and nesting where a reference can stand is a separate path; tests cover a handful.",
  ["resolve.rs","compiler.rs","reader.rs"],
  [("registry of full names and reference walk","resolve.rs: validate_references, collect_unresolved_refs"),("error assembly","compiler.rs: validate_all_references")])
P("P04","Ill-formed and duplicate declarations are rejected",
  "Conversion fails when two IDL declarations give the same full name to different types, when an IDL record, parameter list, enum or union repeats a field, parameter, symbol or branch, when a union directly contains a union, when an enum default is not one of its symbols, or when a declared name is not a valid Avro name or is reserved. None of these ever yields output.",
  ["inputs"],"every program with such a defect at any position, in any file of the import graph",
  "The defect can be placed at arbitrary depth and combined with any surrounding code.",
  ["reader.rs","resolve.rs","compiler.rs"],
  [("duplicate and name checks during the walk","reader.rs: walk_enum, walk_record, walk_union_type, walk_message"),("registration","resolve.rs: SchemaRegistry::register")])
P("P05","Accepted field defaults fit the field's type",
  "For every record field declared in IDL and accepted with a default, the default value is one that Avro accepts for the field's type (any string for enums, bytes and fixed), also when the type is a name declared later or imported; a field whose default does not fit is rejected and the error names the field.",
  ["inputs"],"every field type (nested arrays, maps, records, enums, fixed, unions) and every JSON value as its default",
  "The set of (type, value) pairs is infinite and recursive; tests try single pairs.",
  ["model/schema.rs","compiler.rs","reader.rs"],
  [("default validity by type","model/schema.rs: is_valid_default, validate_default, validate_record_field_defaults"),("resolution of references before validation","model/schema.rs: resolve_for_validation; compiler.rs: validate_field_defaults")])
P("P06","A nullable type orders its union to match its default",
  "A type written with `?` becomes a union of null and that type; null comes first unless the field has a default that is not null, in which case the type comes first and the default stays valid. Unions written out explicitly are never re-ordered.",
  ["inputs"],"every nullable field, parameter and nested nullable type, with and without default, in shared declarations",
  "Interaction of default, shared types and annotations over all inner types is not enumerable by tests.",
  ["reader.rs"],[("re-ordering of the optional union","reader.rs: fix_optional_schema")])
P("P07","Literals keep their exact value",
  "String, integer and floating-point literals in defaults, annotations, sizes and names appear in the output with exactly the value the source denotes (escapes, surrogate pairs, octal, hexadecimal, full 64-bit range, correctly rounded doubles). A literal whose value cannot be represented is rejected, never altered.",
  ["inputs"],"every literal accepted by the grammar",
  "The literal space is infinite; boundary conditions (2^63, surrogates, subnormals) are isolated points.",
  ["reader.rs"],[("unescaping","reader.rs: unescape_java, try_parse_low_surrogate"),("number parsing","reader.rs: parse_integer_literal, parse_integer_as_u32, parse_floating_point_literal")])
P("P08","Declared names get the right namespace",
  "The full name of each declared type is: the dotted identifier itself if it has one, else its namespace annotation plus the name, else the enclosing namespace plus the name; references resolve by the same rule against the namespace where they stand. The emitted name and namespace attributes encode exactly that full name.",
  ["inputs"],"every combination of dotted names, namespace annotations, file namespace and nesting, in protocol and schema files and imports",
  "The rule interacts with the context of emission (inlined in another namespace), which no unit test varies systematically.",
  ["reader.rs","model/schema.rs","model/json.rs"],
  [("name and namespace extraction","reader.rs: compute_namespace, extract_name"),("full names","model/schema.rs: make_full_name, split_full_name, AvroSchema::full_name"),("namespace attribute emission","model/json.rs: named_type_preamble")])
P("P09","Annotations land on the right element and never corrupt it",
  "An annotation appears as a property (or as namespace, aliases, order, logical type) of exactly the element it precedes, and no annotation ever overwrites a structural attribute: annotations that would are rejected. A known logical type is recognised exactly when its base type allows it; otherwise the attributes are kept as written.",
  ["inputs"],"every annotation name and JSON value at every position that accepts one",
  "Name x value x position x base type is a product far beyond the samples.",
  ["reader.rs","model/schema.rs"],
  [("property collection with reserved names","reader.rs: walk_schema_properties"),("application","reader.rs: apply_properties, try_promote_logical_type, overwritten_logical_attribute; model/schema.rs: with_merged_properties, parse_logical_type")])
P("P10","Imported JSON schemas and protocols keep their meaning",
  "Types, messages and attributes imported from .avsc and .avpr files appear in the output with the meaning they have in their own file: same full names, fields, defaults, docs, properties, logical types and nesting, with references resolved in the namespace they were written in. A malformed imported file is rejected.",
  ["inputs","configurations"],"every well-formed JSON schema or protocol, imported from any context",
  "JSON nesting, inherited namespaces and inline definitions form an unbounded space.",
  ["import.rs","model/json.rs","compiler.rs"],
  [("JSON to schema","import.rs: json_to_schema, parse_record, parse_enum, parse_fixed, json_to_field"),("flattening of nested named types","import.rs: flatten_schema; compiler.rs: flatten_and_register")])
P("P11","Imports are resolved in order, once, and merged in declaration order",
  "Each import is looked up next to the importing file first and then in the import directories in the order given; each file contributes once however often it is reached, and cyclic imports terminate. Types and messages of imports take their place at the import statement, and a missing file is an error that names it.",
  ["inputs","configurations"],"every import graph (diamonds, cycles, self-imports, repeated imports) over every layout of directories",
  "Graph shapes and directory layouts are unbounded; a few fixed trees are tested.",
  ["import.rs","compiler.rs"],
  [("path resolution and the set of imported files","import.rs: ImportContext"),("in-order processing","compiler.rs: process_decl_items, resolve_single_import")],
  [("imported files","canonical paths already processed","import.rs")])
P("P12","Extracted schema files are complete and self-contained",
  "Extracting schemata yields one schema per named type of the program, in declaration order, each of which defines every type it refers to within itself and means the same as in the whole program.",
  ["inputs"],"every program, including recursive and forward-referencing types and multiple namespaces",
  "Each schema needs its own closure over an arbitrary graph.",
  ["compiler.rs","model/json.rs"],
  [("per-type serialisation with a fresh set of known names","compiler.rs: Idl2Schemata::extract_impl"),("inlining","model/json.rs: schema_to_json")])
P("P13","No input makes conversion panic; diagnostics stay inside the text",
  "Whatever bytes the input files contain, conversion returns a result or an error and never panics. Every label of every error and warning lies within the text it refers to, on character boundaries.",
  ["inputs"],"every UTF-8 text as main or imported file (up to nesting depths that exhaust the stack)",
  "Arbitrary text, including multi-byte characters at error positions, is not sampled by tests.",
  ["reader.rs","compiler.rs","error.rs","doc_comments.rs","import.rs"],
  [("error positions","reader.rs: make_diagnostic, line_col_to_byte_offset, CollectingErrorListener"),("span construction","error.rs")],obs=["returned reports and their labels"])
P("P14","Doc comments attach to what they precede, with exact text",
  "A doc comment directly preceding a declaration, field, parameter or message becomes its documentation, with comment decoration and common indentation stripped and the rest of the text unchanged; every doc comment that attaches to nothing yields a warning and appears nowhere.",
  ["inputs"],"every placement and every text of doc comments",
  "The token sequences around a comment and the texts inside are unbounded.",
  ["doc_comments.rs","reader.rs"],
  [("lookup of the comment before a node","doc_comments.rs"),("orphan detection","reader.rs")])
P("P15","Conversion is deterministic and independent of earlier conversions",
  "Converting the same files with the same settings gives the same output, error and warnings every time, in every process, and does not depend on what the same converter object converted before; warnings collected before an error remain available.",
  ["inputs","histories"],"every sequence of conversions, failed or not, over one converter object",
  "Needs repeated runs, hash-seed variation and histories.",
  ["compiler.rs","reader.rs","model/json.rs","resolve.rs"],
  [("per-run context","compiler.rs: CompileContext, IdlCompiler"),("insertion-ordered maps","resolve.rs, model/json.rs")],
  [("accumulated warnings","warnings of the last run","compiler.rs: IdlCompiler")])
P("P16","Logical types respect their constraints",
  "A decimal is emitted with the precision and scale written, and is recognised as such only with a positive precision and a scale between zero and the precision; the built-in shorthand types denote the specified logical type on the specified base type. Numbers outside these limits are rejected or kept verbatim as plain attributes, never changed.",
  ["inputs"],"every precision and scale, every base type, shorthand and annotated forms",
  "Numeric boundaries and base-type combinations.",
  ["reader.rs","model/schema.rs"],
  [("shorthand logical types","reader.rs: walk_primitive_type"),("promotion","reader.rs: try_promote_logical_type; model/schema.rs: parse_logical_type")])
P("P17","Messages keep their signature",
  "Each message is emitted with its parameters in order with their types, defaults and docs, its response, its declared errors, and one-way only if declared so; a one-way message has a null response and no errors, otherwise the program is rejected.",
  ["inputs"],"every message declaration, in the main file and merged from imports",
  "Any type may stand at any position of a signature.",
  ["reader.rs","model/json.rs","compiler.rs"],
  [("message walk","reader.rs: walk_message"),("serialisation","model/json.rs: message_to_json")])
P("P18","Suggestions name a closest known name",
  "When an undefined type name is reported with a suggestion, the suggestion is the name of an existing type, within the allowed edit distance of the undefined name, and no existing name is closer; names at no small distance are never suggested.",
  ["inputs"],"every undefined name and every set of declared names",
  "Edit distance over all strings and ties over all sets.",
  ["suggest.rs","compiler.rs"],
  [("edit distance","suggest.rs: levenshtein, max_edit_distance"),("choice","compiler.rs: suggest_similar_name")],obs=["help text of the returned report"])
P("P19","The command writes exactly the converted JSON",
  "The command-line tool writes the converted JSON and nothing else to the chosen output (a file, standard output, or one file per schema), for every form of input (file or standard input), and exits with zero exactly when it did. On failure it exits non-zero, reports on standard error and leaves the output untouched.",
  ["inputs","configurations"],"every combination of command, input form, output form and program",
  "Combinations of options with succeeding and failing programs.",
  ["main.rs"],[("command implementations","main.rs")],obs=["files written, standard output, exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r,ensure_ascii=False)+'\n' for r in R))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in R: jsonschema.validate(r,s); assert len(r['title'])<=80
