// Stands in for the compiled code generator.
export default function init() { return globalThis.__wasmInit(); }
export function run(name, input, options) { return globalThis.__wasmRun(name, input, options); }
