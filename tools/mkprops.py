#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long strings stay editable)."""
import json, os
S = "json_typegen_shared/src/"
G = S + "generation/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Generated Rust types compile and deserialise the sample",
  "For every valid JSON sample (distinct keys per object, integers within i64) and any import style or property_name_format, the Rust code generated for it compiles with serde and serde_json, and the sample deserialises into the generated root type. This holds for every key spelling (keywords, names of standard types, quotes, backslashes, non-ASCII, empty, digits first, keys equal after case conversion) and for every mix of missing, null, empty, numeric and conflicting values that the sample contains. The types are as specific as the sample: a sample changed at one place to a value of a JSON type that does not occur there, or without a key that is never missing or null there, does not deserialise.",
  ["inputs", "configurations"], "all JSON samples x map thresholds and map hints x root names x import styles x property name formats",
  "The tests compare nine fixed samples against fixed text; none of the output is ever compiled or used to deserialise anything, and none exercises key escaping, shadowing or merged null/missing/conflicting values.",
  [G+"rust.rs", S+"shape.rs", S+"inference/jsoninfer.rs", S+"util.rs", G+"serde_case.rs"],
  [("identifier choice and reserved words", G+"rust.rs type_or_field_name"), ("optional/nullable merging", S+"shape.rs common_shape"), ("struct reuse", S+"shape.rs is_acceptable_substitution_for")],
  [("type_names", "type identifiers already used in this output", G+"rust.rs"), ("created_structs", "shape to struct mapping used for reuse", G+"rust.rs")],
  ["json_typegen_shared::codegen output compiled by rustc, sample fed to serde_json"])

p("C02", "Generated Rust types keep every key and value of the sample",
  "Deserialising the sample with the generated Rust root type and serialising the result gives JSON with every key of the sample, spelled identically, at the same place with an equal value (numbers compared numerically; a null may come back as a missing key or the reverse). Keys that the sample does not have at a place appear only as null or as an empty list, and this holds for every property_name_format.",
  ["inputs", "configurations"], "all JSON samples x map thresholds and map hints x property name formats x import styles",
  "serde ignores unknown fields, so a wrongly renamed or dropped optional field goes unnoticed by any test that only deserialises; the tests never run the generated code and use property_name_format nowhere.",
  [G+"rust.rs", G+"serde_case.rs", S+"options.rs", S+"shape.rs"],
  [("explicit serde rename when the format does not give the key", G+"rust.rs generate_struct_type"), ("copy of serde's rename rules", G+"serde_case.rs")],
  (), ["serde_json::to_value(from_str::<Root>(sample))"])

p("C03", "Rust options do what they document",
  "With deny_unknown_fields the generated Rust root type still accepts the sample but rejects an object of the sample with a key added; with use_default_for_missing_fields it accepts the sample (nulls included) and the sample with any keys removed from objects; with collect_additional unknown keys survive a deserialise/serialise round trip. Derives, field_visibility and the visibility prefix in the name appear on every generated struct exactly as given, allow_option_vec decides whether an optional list may be distinguished from an empty one, and the generated code still compiles for each of these options.",
  ["inputs", "configurations"], "all samples x combinations of the Rust-specific options",
  "No test sets any Rust option except one visibility prefix; the behaviour of the compiled types under the options is never exercised.",
  [G+"rust.rs", S+"options.rs", S+"lib.rs", "CONFIGURATION.md"],
  [("option handling in struct generation", G+"rust.rs generate_struct_type / collapse_option_vec"), ("visibility prefix parsing", S+"lib.rs handle_pub_in_name")],
  (), ["compiled generated code, and its syntax tree"])

p("C04", "Generated TypeScript type-checks and describes the sample exactly",
  "For every valid JSON sample, the TypeScript output (interfaces, and the single type alias mode) is accepted by the TypeScript compiler in strict mode, and the sample written as a literal is assignable to the root type with no missing, excess or ill-typed property. This holds for every key spelling and every mix of missing, null, empty and conflicting values. A sample changed at one place to a value of a JSON type that does not occur there, or with an unknown key, or without a key that is never missing (and not always null) there, is not assignable.",
  ["inputs", "configurations"], "all JSON samples x map thresholds and map hints x both TypeScript output modes",
  "There is no test of TypeScript output at all except of the helper that decides whether a key needs quotes.",
  [G+"typescript.rs", G+"typescript_type_alias.rs", S+"shape.rs"],
  [("key quoting", G+"typescript.rs is_ts_identifier"), ("optional as ?, nullable as | null", G+"typescript.rs"), ("interface reuse", S+"shape.rs is_acceptable_substitution_for")],
  (), ["tsc diagnostics for output plus `const s: Root = <sample>`"])

p("C05", "Generated Zod schema is valid and parses the sample unchanged",
  "For every valid JSON sample, the Zod output is a valid module that builds a schema without error, and parsing the sample with that schema succeeds and returns a value equal to the sample, so no key is unknown to the schema. This holds for every key spelling and every mix of missing, null, empty and conflicting values. A sample changed at one place to a value of a JSON type that does not occur there, or without a key that is never missing there, is rejected.",
  ["inputs"], "all JSON samples x map thresholds and map hints",
  "The only test that produces Zod output prints it and asserts nothing.",
  [G+"zod_schema.rs", S+"shape.rs"], [("schema construction", G+"zod_schema.rs type_from_shape")],
  (), ["zod's parse on the sample"])

p("C06", "Generated JSON Schema is valid JSON Schema and accepts the sample",
  "For every valid JSON sample and every root name, the JSON Schema output is well-formed JSON, is itself a valid draft-07 schema, and validates the sample; every key of every object of the sample that is described as an object with properties is among those properties. A sample changed at one place to a value of a JSON type that does not occur there, or without a key that is never missing there, is rejected.",
  ["inputs"], "all JSON samples x map thresholds and map hints x root names",
  "No test produces JSON Schema output.",
  [G+"json_schema.rs", G+"value.rs", S+"shape.rs"], [("schema construction", G+"json_schema.rs type_from_shape"), ("JSON printing", G+"value.rs pretty_print_value")],
  (), ["a draft-07 validator on the output and the sample"])

p("C07", "Generated Kotlin is well-formed and maps every key of the sample",
  "For every valid JSON sample, the Kotlin output (Jackson and kotlinx) is syntactically well-formed Kotlin in which every referenced type is built in, imported or declared exactly once and no declared name hides a built-in one that is used. Every key of every object of the sample is the effective wire name (annotation, naming strategy or property name) of exactly one property of the class generated for it, and the property's type admits every value the sample shows there, including null and absence. No property's type admits a value of a JSON type that does not occur at its place, and with collect_additional (Jackson) the class also collects unknown keys.",
  ["inputs", "configurations"], "all JSON samples x map thresholds and map hints x both Kotlin modes x import styles x property name formats",
  "The only Kotlin test checks five field names; no generated Kotlin file is examined anywhere.",
  [G+"kotlin.rs", S+"shape.rs", S+"util.rs"], [("identifier choice", G+"kotlin.rs type_or_field_name"), ("annotations and naming strategies", G+"kotlin.rs apply_transform / transform_annotation")],
  (), ["parse of the output, interpreted over the sample"])

p("C08", "Generated Python is valid and its models accept the sample",
  "For every valid JSON sample and every import style, and with no property_name_format set, executing the Python output succeeds (given a pydantic module, and the imports when the style assumes them): every name it uses is defined before use and nothing is shadowed. The root model then accepts the sample with every key of every object mapped to exactly one field by name or alias, where an Optional field may be null or absent; a sample changed at one place to a value of a JSON type that does not occur there, or without a key that is never missing or null there, is rejected.",
  ["inputs", "configurations"], "all JSON samples x map thresholds and map hints x import styles",
  "The Python tests compare eight fixed outputs as text and only with one import style; the output is never run.",
  [G+"python.rs", S+"shape.rs", S+"util.rs"], [("identifier choice", G+"python.rs type_or_field_name"), ("aliases", G+"python.rs generate_data_class"), ("child definitions before their parent", G+"python.rs")],
  (), ["exec of the output with a modelled pydantic, validation of the sample"])

p("C09", "The inferred shape is the most specific one that covers the sample",
  "The inferred shape equals the one defined by the set of values that occur at each place: booleans, strings, integers (only if all numbers there are written without fraction or exponent), numbers otherwise, objects as the union of their fields with a field optional exactly when some object lacks it, lists with the merged element shape, null making its companion nullable, and 'any' only for irreconcilable values. An array of 2 to 12 elements whose elements are irreconcilable is a tuple, merged position by position with tuples of the same length and otherwise as a list.",
  ["inputs"], "all JSON samples",
  "Inference is tested on a dozen tiny inputs and merging on a handful of pairs; the result of folding many values in all orders and nestings is an inductive property.",
  [S+"shape.rs", S+"inference/jsoninfer.rs", G+"shape.rs"], [("pairwise merging", S+"shape.rs common_shape"), ("array folding, tuple cut-off at 12", S+"inference/jsoninfer.rs infer_array")],
  (), ["shape output mode against a declarative model over value sets"])

p("C10", "Output depends only on the JSON value, not on its spelling or order",
  "Two texts of the same JSON value (different whitespace, string escapes, number spellings that keep integer or fractional form) give byte-identical output in every output mode, and repeating a call gives byte-identical output. Permuting or duplicating the elements of an array whose elements have a common type changes the inferred shape at most in the order of object fields.",
  ["inputs", "configurations"], "all JSON values x respellings x permutations x output modes",
  "Needs pairs of related inputs; each test feeds one text once.",
  [S+"inference/jsonlex.rs", S+"inference/jsoninfer.rs", S+"shape.rs", G+"rust.rs", G+"kotlin.rs", G+"python.rs"],
  [("lexing of escapes and surrogates", S+"inference/jsonlex.rs match_string"), ("import sets are sorted before printing", G+"rust.rs, kotlin.rs, python.rs")],
  (), ["codegen output text"])

p("C11", "Code generation never panics, whatever the input",
  "For every input text or file content (valid, invalid or truncated JSON or SQL, arbitrary bytes), every root name and every options text, in every output mode, the call returns generated code ending in exactly one newline or an error value; it does not panic, hang or abort. This covers input nested up to a few hundred levels deep.",
  ["inputs", "configurations"], "all byte strings x options texts x output modes",
  "The tests contain about ten malformed inputs, none of them through an options block, a hint, an unwrap path or the SQL mode.",
  [S+"lib.rs", S+"parse.rs", S+"inference/jsonlex.rs", S+"inference/jsoninfer.rs", S+"sql.rs", "json_typegen_cli/src/main.rs"],
  [("errors as values", S+"lib.rs JTError"), ("lexer fails once and stops", S+"inference/jsonlex.rs")],
  (), ["catch_unwind around the public API; exit status of the CLI"])

p("C12", "Malformed JSON samples are rejected and valid ones accepted",
  "Every valid JSON text is accepted as a sample. A text whose first value is cut short, or is structurally wrong (missing, doubled or misplaced brackets, braces, commas or colons, misspelt literals, non-string keys, invalid escapes, unquoted text, invalid UTF-8 in a string), yields an error and no code, also when a hint or unwrap path causes the faulty part to be skipped.",
  ["inputs", "configurations"], "all byte strings classified by an independent JSON recogniser x hints x unwrap paths",
  "A handful of malformed inputs is tested directly on the lexer and parser, none under a hint or an unwrap path.",
  [S+"inference/jsonlex.rs", S+"inference/jsoninfer.rs"], [("token expectations", S+"inference/jsoninfer.rs expect_token"), ("escape and UTF-8 checks", S+"inference/jsonlex.rs match_string")],
  (), ["Ok/Err of codegen"])

p("C13", "Options blocks mean what they say however they are spelt",
  "An options block yields exactly the options it lists, with defaults for the others, independent of the order of entries, whitespace, a trailing comma, quoted or bare option names, quoted JSON-style blocks as sent by the web interface, and the shorthand of a boolean option without a value. A block with an unknown option, a value of the wrong kind, missing punctuation or trailing text is rejected with an error rather than partially applied.",
  ["inputs", "configurations"], "all sets of options x spellings",
  "The tests cover three of the thirteen options in one spelling each.",
  [S+"parse.rs", S+"options.rs", "CONFIGURATION.md"], [("block parser", S+"parse.rs options_with_defaults / block")],
  (), ["parse::options, and the effect of options on codegen"])

p("C14", "use_type hints apply exactly at the places their pointer addresses",
  "A use_type hint at a JSON Pointer (RFC 6901, with - as a wildcard for any key or index) makes exactly the addressed places have the given opaque type, or, for \"map\", a map whose value type covers all values of the addressed objects; every other place is inferred as if the hint were absent. Where an addressed value is merged with others, as elements of a list are, the merged place has the opaque type. With unwrap, pointers start at the nodes that unwrap addresses. A map hint that addresses a non-object is an error.",
  ["inputs", "configurations"], "all samples x pointers (existing, non-existing, wildcard, escaped) x hint kinds",
  "Hints are tested only for parsing and for one step of pointer matching; no test generates code with a hint.",
  [S+"hints.rs", S+"inference/jsoninfer.rs", S+"shape.rs"], [("pointer stepping", S+"hints.rs step_field / step_index / step_array"), ("hint application", S+"inference/jsoninfer.rs infer_shape")],
  [("hints", "remaining pointer tokens per hint while descending", S+"hints.rs")], ["shape output mode against the model; Rust output compiled"])

p("C15", "unwrap generates types for exactly the addressed nodes",
  "With unwrap set to a JSON Pointer, the output is identical to the output for the addressed node alone; when wildcards address several nodes it is the output for the merge of exactly those nodes. If the pointer addresses nothing, the call fails. Hints are relative to the addressed nodes, and skipped siblings never influence the result or cause an error when they are valid JSON.",
  ["inputs", "configurations"], "all samples x pointers x output modes x hints",
  "Five tests each unwrap one level of a two-value sample.",
  [S+"inference/jsoninfer.rs"], [("unwrap descent", S+"inference/jsoninfer.rs unwrap")],
  (), ["codegen with unwrap against codegen of the extracted node"])

p("C16", "infer_map_threshold turns exactly the larger objects into maps",
  "With infer_map_threshold n, every object of the sample with more than n keys is inferred as a map from string to the merge of its values and every object with at most n keys as a struct; without the option no object becomes a map (type aliases and Zod schemas may in addition show a merged object with more than n keys as a map). The generated types still accept the sample, in every output mode, and where the sample has a struct they reject a value of another JSON type and a missing key that is never missing or null there.",
  ["inputs", "configurations"], "all samples x thresholds x output modes",
  "The option is not used by any test.",
  [S+"inference/jsoninfer.rs", G+"typescript_type_alias.rs", G+"zod_schema.rs"], [("threshold check", S+"inference/jsoninfer.rs infer_object")],
  (), ["shape output mode against the model; per-language acceptance oracles"])

p("C17", "SQL input: one field per column, with the declared type",
  "In SQL input mode the output for a script has, for the first CREATE TABLE statement in it, exactly one field per column, named as the column is named (without quoting characters) and in order; character columns are strings, integer columns are integers, boolean columns are booleans, date and timestamp columns are Date, anything else is unknown, and a column is nullable unless declared NOT NULL. A script that does not parse or has no CREATE TABLE statement is an error.",
  ["inputs", "configurations"], "all CREATE TABLE statements x output modes; arbitrary SQL text",
  "One test runs one table and asserts nothing about the result.",
  [S+"sql.rs", S+"lib.rs"], [("column to shape mapping", S+"sql.rs shape_for_column")],
  (), ["codegen with input_mode sql"])

p("C18", "All interfaces produce the same code for the same request",
  "For the same root name, sample and options, the library call, the macro-text entry points (every Rust string literal form for the arguments), the web entry point and the command line (sample inline, from a file, from standard input, as macro text; output to standard output or a file) produce identical code, or all report the same error.",
  ["inputs", "configurations"], "all names x samples x options x routes",
  "No test runs the command line or the web entry point, and none compares two routes.",
  [S+"lib.rs", S+"parse.rs", "json_typegen_cli/src/main.rs", "json_typegen_wasm/src/lib.rs", "json_typegen/src/lib.rs"],
  [("source detection", S+"lib.rs infer_source_type"), ("macro argument parsing", S+"parse.rs macro_input / full_macro"), ("CLI routing", "json_typegen_cli/src/main.rs")],
  (), ["output text of each route"])

p("C19", "The json_typegen! macro expands to working types or a compile error",
  "Every json_typegen! invocation with a valid inline or local-file sample expands, wherever items are allowed and with no imports in scope, to types that compile and deserialise the sample. Every invocation with a bad sample, file, option or argument list fails with a compile error that carries the error message, never with a panic of the macro.",
  ["programs", "inputs", "configurations"], "all programs that invoke the macro: samples x options x literal forms x several invocations per crate",
  "One doc test and one demo expand the macro on { x, y }.",
  ["json_typegen/src/lib.rs", S+"parse.rs", S+"lib.rs", G+"rust.rs"], [("error to compile_error!", "json_typegen/src/lib.rs"), ("qualified paths in macro output", S+"options.rs macro_default")],
  (), ["rustc on generated crates"])

p("C20", "A failing command-line run leaves the output file alone and says so",
  "A command-line run that fails for any reason before or during code generation exits with a non-zero status, writes a diagnostic to standard error and nothing to standard output, and does not create or modify the file named with -o. A run that succeeds exits with status 0 and the output file then holds exactly the generated code, whatever it held before; a failure to write the output is reported with a non-zero status.",
  ["inputs", "fault_sequences", "configurations"], "all inputs and arguments x previous states of the output file x write faults",
  "The command line has no tests.",
  ["json_typegen_cli/src/main.rs"], [("error exit", "json_typegen_cli/src/main.rs main"), ("output file handling", "json_typegen_cli/src/main.rs main_with_result")],
  [("output file", "file named by -o", "json_typegen_cli/src/main.rs")], ["exit status, streams and file contents of the binary"])

p("C21", "The result does not depend on how the sample is delivered",
  "A sample delivered as a file of any name, a pipe or over HTTP, in pieces of any size and at any length (including strings and tokens that straddle internal buffers), gives the same output as the same sample given inline. If delivery stops or fails before the sample's root value is complete (short read, truncated or aborted response, error status, missing file), the run fails with an error and produces no code.",
  ["inputs", "fault_sequences"], "all samples x partitions into reads x points of failure x transports",
  "All tests pass the sample as a short in-memory string.",
  [S+"lib.rs", S+"inference/jsonlex.rs", S+"progress.rs"], [("buffered byte lexer", S+"inference/jsonlex.rs"), ("progress reader", S+"progress.rs"), ("source selection", S+"lib.rs infer_from_sample")],
  (), ["CLI binary reading from FIFOs and a loopback HTTP server"])

p("C22", "The web worker uses the input the user last chose",
  "In every history of messages to the web worker, a code generation request uses the content of the most recently loaded file unless the file was cleared after it was chosen, and otherwise the text in the request; each request is answered once, in order, with the type name and options it was made with. Stored parameters are restored exactly as stored, and the download link holds the generated code under a name with the extension of the chosen output language, for every output language the interface offers.",
  ["histories", "schedules"], "all message sequences with file reads completing at any later point",
  "The web interface has no tests.",
  ["json_typegen_web/src/lib/worker.ts", "json_typegen_web/src/lib/download.ts", "json_typegen_web/src/lib/localstorage.ts", "json_typegen_web/src/App.svelte"],
  [("large file override", "json_typegen_web/src/lib/worker.ts largeFileInput"), ("extension table", "json_typegen_web/src/lib/download.ts")],
  [("largeFileInput", "content of the loaded file, if any", "json_typegen_web/src/lib/worker.ts")], ["messages posted by the worker, arguments of the code generator"])

p("C23", "Type names are unique and equal shapes share one generated type",
  "In the Rust, Kotlin, Python and TypeScript interface output every declared type name is declared once, the requested root name is declared, every declared type is used, and within one type no two members have the same name. Two places of the sample whose inferred object shapes are equal use the same generated type, and a place never uses a type generated for a shape with other keys.",
  ["inputs", "configurations"], "all samples with repeated, similar and colliding objects x output modes",
  "Tests use at most three struct types with distinct shapes and names.",
  [G+"rust.rs", G+"kotlin.rs", G+"python.rs", G+"typescript.rs", S+"shape.rs", S+"to_singular.rs"],
  [("name disambiguation", G+"rust.rs type_or_field_name"), ("reuse", S+"shape.rs is_acceptable_substitution_for")],
  (), ["declarations parsed from the output against the model's shapes"])

p("C24", "The web page ends up showing the code for what the user chose last",
  "Whatever the user does on the web page (typing, changing fields and options, loading examples, choosing small and large files, clearing the file, formatting, reloading) and in whatever order messages and file reads complete, once everything has come to rest the page shows, and offers for download, the code generated for the input chosen last (a failed read of that file aside) with the type name and options chosen last; it shows the large-file note exactly when a large file is in use and no loading indicator. A reload restores the choices.",
  ["histories", "schedules"], "all sequences of user actions x interleavings of messages between page and worker x orders of file reads, including reads that fail",
  "The web interface has no tests; such races do not show in manual use with small files.",
  ["json_typegen_web/src/App.svelte", "json_typegen_web/src/lib/worker.ts", "json_typegen_web/src/lib/file.ts", "json_typegen_web/src/lib/localstorage.ts", "json_typegen_web/src/lib/download.ts"],
  [("one outstanding request, latest queued", "json_typegen_web/src/App.svelte requestCodegen"), ("re-render on change", "json_typegen_web/src/App.svelte render"), ("input choice", "json_typegen_web/src/App.svelte loadFile / clearFile")],
  [("queued", "the newest request not yet sent", "json_typegen_web/src/App.svelte"), ("workerReady", "the worker owes no answer", "json_typegen_web/src/App.svelte"), ("largeFileInput", "content of the loaded file", "json_typegen_web/src/lib/worker.ts")],
  ["variables bound in the page's markup, messages to and from the worker"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
