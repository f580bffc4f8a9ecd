c("C01", "generated code compiled by rustc, sample and near misses deserialised", "The oracle is the real compiler and serde; trusts them and the shape model that chooses the near misses.")
c("C02", "round trip through the compiled types", "The oracle compares input and output JSON; trusts rustc, serde and serde_json.")
c("C03", "metamorphic relations on the compiled types under random option sets", "Added and removed keys are judged by the compiled code; attributes are read with syn.")
c("C04", "TypeScript compiler as oracle, sample and near misses as literals", "Uses the real type checker in strict mode with a minimal standard library.")
c("C05", "zod as oracle, parsed value compared with the sample", "Uses the real zod 4.")
c("C06", "JSON Schema validator as oracle", "Uses python-jsonschema's Draft7Validator and a strict JSON reader.")
c("C07", "parsed and interpreted against the sample and near misses", "No Kotlin compiler is installed: a strict parser of the emitted subset and Jackson's naming strategies are re-implemented.")
c("C08", "execution against a model of pydantic", "The Python interpreter executes the code; pydantic is modelled (fields, aliases, Optional).")
c("C09", "shape output against a declarative reference model", "The model is written over sets of values, without pairwise merging.")
c("C10", "metamorphic relations (respelling, repetition, permutation, duplication)", "Outputs are compared with each other; the model only decides which arrays may be permuted.")
c("C11", "structured and byte-level fuzzing of every text input", "Panics are caught in process.")
c("C12", "differential against an independent JSON recogniser", "Number grammar, raw control characters, lone surrogates and trailing text are not judged.")
c("C13", "random option sets in random spellings against the options they list; single-defect blocks rejected", "allow_option_vec, input_mode and hints are private in the library: their canonical spelling is the reference for the others.")
c("C14", "shape output against the model with hints applied to the values; acceptance in the other languages", "The reference model interprets JSON pointers independently.")
c("C15", "metamorphic: unwrapped document against the addressed nodes alone, plus the shape model", "Byte comparison in all output modes.")
c("C16", "shape output against the model; acceptance in the other languages", "Type aliases and Zod re-apply the limit to merged objects; there only acceptance is judged.")
c("C17", "composed CREATE TABLE scripts against the columns they were composed from", "Column names, classes and nullability by construction; the other output modes are compared with the code for equivalent JSON rows.")
c("C18", "differential between all routes to the same request", "Library call, macro text with every literal form, web entry point run natively, and the CLI binary in every source and destination form.")
c("C19", "generated crates with macro invocations compiled and run", "rustc is the judge of the expansion; the error message in compile_error! is compared with the library's error.")
c("C20", "runs of the binary with generated arguments, prior file states and write faults", "Status, streams and files are compared before and after; write faults through /dev/full, directories and file size limits.")
c("C21", "differential between delivery of the sample in generated pieces and inline", "Files, FIFOs written in pieces and a loopback HTTP server that aborts or truncates; faults after the root value is complete are not judged.")
c("C22", "stateful: message histories against the real worker script with a reference model", "The scripts are bundled as they are and run in a JavaScript context with stand-ins for the browser APIs.")
c("C23", "parsed declarations walked together with the sample and its model shape", "Declarations are parsed by parsers of our own (Rust with syn).")
c("C24", "stateful: user actions and message schedules against the page script and the worker script with a reference model", "The page's script runs without its view; reactive statements are run by our own model of their semantics.")
