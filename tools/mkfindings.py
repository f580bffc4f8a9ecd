#!/usr/bin/env python3
"""Writes known_findings.json: defects of json_typegen that were repaired (status fixed) or recorded (status known)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
deb4bd4 C09 a number with an exponent was inferred as an integer, so the Rust type i64 refused the sample ({"a": 1e2})
73ad311 C12 a parse error inside a value with an opaque type hint was not reported
12918f4 C11 a map hint on an object above infer_map_threshold panicked
9400337 C15 hints were applied to nodes that unwrap skips
9d1bc5e C14 a hint with an index pointer applied to the wrong elements after the first 12
b1d17f3 C14 ~0 and ~1 in JSON pointers were not decoded
7f38b74 C09 a field missing in one object and null in others lost its optionality
15fb477 C09 merging several nulls nested Nullable in Nullable
116c19d C06 keys and titles were not escaped in JSON schemas
2a1f807 C06 JSON schemas refused null where the sample has null
86ac62f C17 SQL without a CREATE TABLE statement panicked or gave no error
a012982 C17 quote characters were kept in the names of quoted SQL columns
b32deab C04 a type with an optional field stood in for one whose field is never missing
ca97e01 C23 equal shapes with nullable fields in another order got two types
3008a9b C14 an opaque type lost its nullability, depending on the order of the values
94f2f6f C01 keys with quotes or backslashes gave invalid serde rename attributes
5c041ba C01 the keywords dyn and gen were used as field names
78e4bb5 C03 null was refused with use_default_for_missing_fields
86f20b7 C03 a key additional_fields collided with collect_additional
5332386 C03 additional_fields was private whatever field_visibility says
01f2c3c C03 an optional list inferred from arrays of equal length ignored allow_option_vec
cafd5e5 C23 a root name that is not in type case could be declared twice
3713a9c C01 generated Rust types shadowed the std and serde types that the code uses
ee50b6e C07 keys were not escaped in Kotlin annotations
248421e C07 kebab case used an annotation that does not exist
4edb4b3 C07 typeof was used as a Kotlin property name
aa179aa C07 generated Kotlin classes shadowed the types that the code uses
b6b42ba C08 aliases were not escaped in Python
5824242 C08 generated Python classes shadowed the imports
37c0995 C08 Python fields shadowed the builtin types of later fields
1e09e3c C08 Python class names that start with a number collided with field names
2d47a2d C05 properties of Zod objects were not separated by commas
0778e76 C04 the elements of arrays of nullable values were not parenthesised in TypeScript
31db938 C04 TypeScript interface names could start with a number
4f395ec C04 property names were not escaped in TypeScript and Zod
99619e9 C20 the output file was truncated when code generation failed
796b506 C18 a sample file whose name starts with json_typegen was taken for macro text
d442a7f C18 the command line refused the output mode zod
ed87a03 C13 text after an options string in a macro was ignored
fc53394 C19 error messages with quotes and hash signs gave an unreadable compile error
3c692f0 C19 the macro panicked when the generated code is no valid token stream
7f9332f C22 the download of a Zod schema had the name of a Rust file
d842e7a C22 the worker used a file that was cleared or replaced while it was loading
d95175b C01 a type was used for its own field, which has infinite size
389d01f C07 a key additionalFields collided with collect_additional in Kotlin
9b6a09c C16 the help text of infer_map_threshold was off by one
19cbbf2 C22 the worker ignored an empty file
3b95dbe C24 a large file stayed in use after another input was chosen
2d8c7b4 C24 the output was not updated when the file was cleared
ad80895 C24 a small file that finished loading late replaced a newer input
56dc837 C24 the page waited forever for a file that can not be read
c4fa6e2 C07 a type with a tuple stood in for one with a list of values and nulls
"""
KNOWN = []
def known(pid, what, case):
    KNOWN.append({"property": pid, "status": "known", "what": what, "case": case})
ANY = "a key that is missing in some objects and has irreconcilable values in others ([{\"a\":1},{\"a\":\"x\"},{}]) is generated as required (pinned by unit tests of shape.rs)"
def any_case(**opts):
    return {"name": "Root", "sample": "[{\"a\":1},{\"a\":\"x\"},{}]", "opts": dict({"_probe": "true"}, **opts)}
for pid, mode in [("C01", "rust"), ("C04", "typescript"), ("C05", "zod"), ("C06", "json_schema"), ("C08", "python")]:
    known(pid, ANY, any_case(output_mode=mode))
known("C01", "-0 without fraction or exponent is an integer, but serde_json reads it as a float and i64 refuses it", {"name": "Root", "sample": "{\"a\":-0}", "opts": {"_probe": "true", "output_mode": "rust"}})
out = []
for l in FIXED.strip().splitlines():
    h, p, what = l.split(" ", 2)
    out.append({"property": p, "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p, h, what)})
json.dump(out + KNOWN, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
