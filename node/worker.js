// Decides batches of cases with the TypeScript compiler or with zod. One JSON request per line.
'use strict';
const MODS = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const req = (m) => require(require.resolve(m, { paths: [MODS] }));
const util = require('util');
let ts, z;

const LIB = `
interface Array<T> { readonly " array": number; [n: number]: T; }
interface ReadonlyArray<T> { readonly " array": number; readonly [n: number]: T; }
interface Boolean { readonly " boolean": 1 } interface CallableFunction {} interface Function {} interface IArguments {}
interface NewableFunction {} interface Number { readonly " number": 1 } interface Object {} interface RegExp {} interface String { readonly " string": 1 } interface Symbol {}
interface Date { getTime(): number; }
type Record<K extends keyof any, T> = { [P in K]: T };
`;
let libFile, oldOpts;
function tsBatch(cases) {
  ts = ts || req('typescript');
  const options = {
    strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, noResolve: true,
    types: [], moduleDetection: ts.ModuleDetectionKind.Force, skipLibCheck: true,
  };
  libFile = libFile || ts.createSourceFile('/lib.d.ts', LIB, ts.ScriptTarget.ES2022, true);
  const files = new Map();
  const starts = [];
  cases.forEach((c, i) => {
    let text = c.code + '\n';
    const pos = [];
    c.samples.forEach((s, k) => {
      pos.push(text.length);
      text += `const __sample${k}: ${c.root} = ${s};\n`;
    });
    starts.push({ pos, end: text.length });
    files.set(`/c${i}.ts`, ts.createSourceFile(`/c${i}.ts`, text, ts.ScriptTarget.ES2022, true));
  });
  const host = {
    getSourceFile: (f) => (f === '/lib.d.ts' ? libFile : files.get(f)),
    getDefaultLibFileName: () => '/lib.d.ts',
    writeFile: () => {}, getCurrentDirectory: () => '/', getCanonicalFileName: (f) => f,
    useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
    fileExists: (f) => f === '/lib.d.ts' || files.has(f), readFile: () => undefined, directoryExists: () => false, getDirectories: () => [],
  };
  const program = ts.createProgram([...files.keys()], options, host);
  const global = program.getGlobalDiagnostics().concat(program.getOptionsDiagnostics());
  if (global.length) throw new Error('harness: ' + global.map((d) => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('; '));
  return cases.map((c, i) => {
    const sf = files.get(`/c${i}.ts`);
    const ds = program.getSyntacticDiagnostics(sf);
    const all = ds.length ? ds : program.getSemanticDiagnostics(sf);
    const res = { code: null, samples: c.samples.map(() => null), names: [] };
    for (const d of all) {
      const msg = `TS${d.code}: ${ts.flattenDiagnosticMessageText(d.messageText, '\n')} [${JSON.stringify(sf.text.slice(Math.max(0, d.start - 20), d.start + d.length + 20))}]`;
      let k = -1;
      starts[i].pos.forEach((p, j) => { if (d.start >= p) k = j; });
      if (k < 0 || ds.length) res.code = res.code || msg;
      else res.samples[k] = res.samples[k] || msg;
    }
    return res;
  });
}

// objects without a prototype, so that a key like "constructor" is missing when it is missing
function bare(v) {
  if (Array.isArray(v)) return v.map(bare);
  if (v === null || typeof v !== 'object') return v;
  const o = Object.create(null);
  for (const k of Object.keys(v)) o[k] = bare(v[k]);
  return o;
}
function zodBatch(cases) {
  z = z || req('zod');
  return cases.map((c) => {
    const res = { code: null, samples: c.samples.map(() => null) };
    let schema;
    try {
      const m = /^export const ([\p{ID_Start}$_][\p{ID_Continue}$]*) = /u.exec(c.code);
      if (!m) throw new Error('no exported schema');
      schema = new Function('z', `"use strict";\n${c.code.slice('export '.length)}\n;return ${m[1]};`)(z.z || z);
      if (!schema || typeof schema.safeParse !== 'function') throw new Error('the exported value is not a schema');
    } catch (e) {
      res.code = String(e);
      return res;
    }
    c.samples.forEach((s, k) => {
      const v = bare(JSON.parse(s));
      try {
        const r = schema.safeParse(v);
        if (!r.success) res.samples[k] = 'rejected: ' + r.error.message;
        else if (!util.isDeepStrictEqual(bare(r.data), bare(JSON.parse(s)))) res.samples[k] = 'changed to ' + JSON.stringify(r.data);
      } catch (e) {
        res.samples[k] = 'threw: ' + String(e);
      }
    });
    return res;
  });
}

require('readline').createInterface({ input: process.stdin, terminal: false }).on('line', (l) => {
  let out;
  try {
    const r = JSON.parse(l);
    out = r.kind === 'ts' ? tsBatch(r.cases) : zodBatch(r.cases);
  } catch (e) {
    out = { error: String(e && e.stack || e) };
  }
  process.stdout.write(JSON.stringify(out) + '\n');
});
