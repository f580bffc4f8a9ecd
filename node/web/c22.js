// C22: the web worker, stored parameters and the download link.
'use strict';
const { REPO, bundle, settle, start, n, canon, fs, path, Harness } = require('./common.js');
const { FakeFile, worker, Storage, quiet, vm } = require('./world.js');
const util = require('util');
const assert = (ok, m) => { if (!ok) throw new Error(m); };
const same = (a, b) => util.isDeepStrictEqual(JSON.parse(JSON.stringify(a ?? null)), JSON.parse(JSON.stringify(b ?? null)));

const workerCode = bundle(path.join(REPO, 'lib/worker.ts'), '__worker');
const storageCode = bundle(path.join(REPO, 'lib/localstorage.ts'), '__lib');
const downloadCode = bundle(path.join(REPO, 'lib/download.ts'), '__lib');
const messages = (() => {
  const c = vm.createContext({ console: quiet });
  vm.runInContext(bundle(path.join(REPO, 'lib/WorkerMessage.ts'), '__lib'), c);
  return vm.runInContext('__lib.WorkerMessage', c);
})();

// ---- histories: [["load", k, content], ["done", k], ["clear"], ["gen", input, typename, options]]
async function history(steps, info) {
  let calls = [];
  let count = 0;
  const w = worker(workerCode, (name, input, options) => {
    const r = `code ${count++}`;
    calls.push({ name, input, options, r });
    return r;
  });
  await settle();
  assert(w.out.length === 1 && w.out[0].type === messages.WASM_READY, `after loading the worker posts ${canon(w.out)}`);
  w.out.length = 0;
  const files = [];
  let choice = null, content; // the file chosen last; the content in use
  let loads = 0, gens = 0, raced = false, failed = false;
  for (const [i, s] of steps.entries()) {
    const at = `step ${i + 1} ${canon(s).slice(0, 200)}`;
    const posted = () => { const p = w.out.splice(0); const c = calls; calls = []; return [p, c]; };
    if (s[0] === 'load') {
      const f = new FakeFile('f' + i, s[1]);
      f.fails = s[2] === true;
      files.push({ f, id: i, done: false });
      choice = i;
      loads++;
      w.send({ type: messages.LOAD_FILE, file: f });
      await settle();
      const [p, c] = posted();
      assert(c.length === 0, `${at}: code is generated without a request`);
      assert(!p.some((m) => m.type === messages.CODEGEN_COMPLETE), `${at}: an answer without a request: ${canon(p)}`);
      assert(p.length === 0, `${at}: the worker posts ${canon(p)} before the file is read`);
    } else if (s[0] === 'done') {
      const open = files.filter((x) => !x.done);
      if (!open.length) continue;
      const x = open[s[1] % open.length];
      if (open.indexOf(x) > 0) raced = true;
      x.done = true;
      x.f.complete();
      await settle(); await settle();
      const [p, c] = posted();
      assert(c.length === 0, `${at}: code is generated without a request`);
      assert(!p.some((m) => m.type === messages.CODEGEN_COMPLETE), `${at}: an answer without a request: ${canon(p)}`);
      if (x.f.fails) {
        failed = true; // nothing was loaded: what is in use stays
      } else if (choice === x.id) {
        content = x.f.content;
        assert(p.filter((m) => m.type === messages.LOAD_FILE_COMPLETE).length === 1, `${at}: the file that was chosen last is loaded, but the worker posts ${canon(p)}`);
      }
    } else if (s[0] === 'clear') {
      choice = null;
      content = undefined;
      w.send({ type: messages.CLEAR_FILE });
      await settle();
      const [p, c] = posted();
      assert(c.length === 0 && !p.some((m) => m.type === messages.CODEGEN_COMPLETE), `${at}: ${canon(p)}`);
    } else {
      // several requests may be delivered before the worker gets to post anything
      const batch = s[1];
      for (const r of batch) w.send({ type: messages.CODEGEN, input: r.input, typename: r.typename, options: r.options });
      gens += batch.length;
      await settle();
      const [p, c] = posted();
      const want = batch.map((r) => ({ ...r, used: content !== undefined ? content : r.input }));
      assert(c.length === want.length, `${at}: ${want.length} requests, ${c.length} calls of the generator`);
      assert(p.length === want.length, `${at}: ${want.length} requests, answers ${canon(p)}`);
      want.forEach((r, j) => {
        assert(c[j].name === r.typename, `${at}: type name ${canon(c[j].name)} instead of ${canon(r.typename)}`);
        assert(c[j].input === r.used, `${at}: the input is ${canon(c[j].input)} instead of ${canon(r.used)}`);
        let o;
        try { o = JSON.parse(c[j].options); } catch (e) { throw new Error(`${at}: options ${c[j].options}`); }
        assert(same(o, r.options), `${at}: options ${c[j].options} instead of ${canon(r.options)}`);
        assert(p[j].type === messages.CODEGEN_COMPLETE && p[j].result === c[j].r, `${at}: answer ${canon(p[j])} for ${canon(c[j].r)}`);
        assert(p[j].typename === r.typename && same(p[j].options, r.options), `${at}: answer ${canon(p[j])} for request ${canon(r)}`);
      });
    }
  }
  info.tags = ['history'];
  if (raced) info.tags.push('out of order');
  if (failed) info.tags.push('unreadable file');
  if (loads > 1) info.tags.push('several files');
  if (content === '') info.tags.push('empty file');
  info.nontrivial = loads > 0 && gens > 0;
}
const TEXTS = ['', ' ', '{}', '{"a":1}', '[1,2]', 'not json', 'null', '0', 'false', '\u0000', 'é😀', 'undefined'];
const text = (fc) => fc.oneof({ weight: 4, arbitrary: fc.constantFrom(...TEXTS) }, { weight: 1, arbitrary: fc.string({ unit: 'binary', maxLength: 12 }) });
const options = (fc) => fc.dictionary(
  fc.constantFrom('output_mode', 'input_mode', 'unwrap', 'import_style', 'collect_additional', 'infer_map_threshold', 'property_name_format', '/a', '', '/a/-'),
  fc.oneof(text(fc), fc.boolean(), fc.record({ use_type: text(fc) })), { maxKeys: 4 });
const request = (fc) => fc.record({ input: text(fc), typename: fc.oneof(fc.constantFrom('Root', 'A', ''), text(fc)), options: options(fc) });
const steps = (fc) => fc.array(fc.oneof(
  { weight: 3, arbitrary: fc.tuple(fc.constant('load'), text(fc), fc.integer({ min: 0, max: 6 }).map((k) => k === 0)) },
  { weight: 4, arbitrary: fc.tuple(fc.constant('done'), fc.nat(3)) },
  { weight: 1, arbitrary: fc.tuple(fc.constant('clear')) },
  { weight: 4, arbitrary: fc.tuple(fc.constant('gen'), fc.array(request(fc), { minLength: 1, maxLength: 2 })) },
), { minLength: 1, maxLength: 14 });

// ---- stored parameters
function lib(code, extra) {
  const c = vm.createContext({ console: quiet, ...extra });
  c.self = c;
  c.window = c;
  vm.runInContext(code, c);
  return vm.runInContext('__lib', c);
}
async function stored(list, info) {
  const localStorage = new Storage();
  let page = lib(storageCode, { localStorage });
  assert(same(page.restoreParams(), {}), `nothing stored, restored ${canon(page.restoreParams())}`);
  for (const y of list) {
    const x = { ...y, params: { ...y.params } };
    if (x.params.input && x.params.input.long) x.params.input = x.params.input.long[0].repeat(x.params.input.long[1]);
    const before = canon(x.params);
    page.storeParams(x.params);
    assert(canon(x.params) === before, 'the parameters are changed by storing them');
    if (x.reload) page = lib(storageCode, { localStorage });
    const got = page.restoreParams();
    assert(same(got, x.params), `stored ${before.slice(0, 2000)}\nrestored ${canon(got).slice(0, 2000)}`);
  }
  info.tags = ['stored parameters'];
  info.nontrivial = list.some((x) => Object.keys(x.params).length > 1);
}
const params = (fc) => fc.record({
  typename: text(fc), input: fc.oneof({ weight: 9, arbitrary: text(fc) }, { weight: 9, arbitrary: fc.string({ unit: 'binary', maxLength: 40 }) }, { weight: 1, arbitrary: fc.record({ long: fc.tuple(fc.constantFrom('a', 'é', '"'), fc.constantFrom(1000, 100_000, 900_000)) }) }), extraoptions: text(fc),
  options: fc.record({ input_mode: fc.constantFrom('json', 'sql', ''), output_mode: fc.constantFrom('rust', 'kotlin/jackson', 'zod'), property_name_format: text(fc), unwrap: text(fc), import_style: text(fc), collect_additional: fc.boolean(), infer_map_threshold: text(fc) }, { requiredKeys: [] }),
}, { requiredKeys: [] });

// ---- download link
const EXT = { rust: 'rs', typescript: 'ts', 'typescript/typealias': 'ts', 'kotlin/jackson': 'kt', 'kotlin/kotlinx': 'kt', python: 'py', json_schema: 'json', zod: 'ts', shape: 'json' };
function offered() {
  const t = fs.readFileSync(path.join(REPO, 'App.svelte'), 'utf8');
  const m = /<Select\b[^<]*?id="outputmode"[\s\S]*?options=\{(\[[\s\S]*?\])\}\s*\/>/.exec(t);
  let v = [];
  try { v = m ? vm.runInNewContext(m[1]).map((x) => x[0]) : []; } catch (e) { v = []; }
  return v.length ? v : Object.keys(EXT);
}
const MODES = [...new Set([...offered(), ...Object.keys(EXT)])];
async function download(list, info) {
  const blobs = new Map();
  let k = 0;
  const revoked = new Set();
  const c = lib(downloadCode, {
    Blob: class { constructor(parts) { this.text = parts.join(''); } },
    URL: { createObjectURL: (b) => { const u = `blob:x/${k++}`; blobs.set(u, b.text); return u; }, revokeObjectURL: (u) => revoked.add(u) },
  });
  for (const [mode, name, r] of list) {
    const result = r.long ? r.long[0].repeat(r.long[1]) : r;
    const p = c.getDownloadLinkProps(result, name, mode);
    const want = EXT[mode];
    if (want) assert(p.download === `${name}.${want}`, `${mode}: the file is called ${canon(p.download)}`);
    else assert(/^.+\.[a-z]+$/.test(p.download.slice(name.length)) || /^\.[a-z]{1,5}$/.test(p.download.slice(name.length)) && !p.download.endsWith('.undefined'), `${mode}: the file is called ${canon(p.download)}`);
    assert(!p.download.endsWith('.undefined'), `${mode}: the file is called ${canon(p.download)}`);
    assert(blobs.get(p.href) === result, `${mode}: the link holds ${canon(blobs.get(p.href)).slice(0, 500)} instead of ${canon(result).slice(0, 500)}`);
    assert(!revoked.has(p.href), `${mode}: the link is revoked`);
  }
  info.tags = ['download'];
  info.nontrivial = list.length > 0;
}

start('C22',
  'histories of up to 14 messages to the real worker script (code generator replaced by a recorder): files chosen, file reads finishing in any order at any later point, files cleared, requests; and stored parameters over page reloads; and download links for every output language of the page; non-trivial = a history with a file and a request, parameters with two or more keys, any download; distinct by hash of the case',
  ['a file that cannot be read leaves in use what was in use', 'messages reach the worker one after another, with pending callbacks run in between, as in a browser', 'how often the completion of a superseded load is announced is not judged'],
  [
    { name: 'histories', arb: steps, check: history, runs: n(30_000, 600_000) },
    { name: 'parameters', arb: (fc) => fc.array(fc.record({ params: params(fc), reload: fc.boolean() }), { maxLength: 4 }), check: stored, runs: n(8_000, 100_000) },
    { name: 'download', arb: (fc) => fc.array(fc.tuple(fc.constantFrom(...MODES), fc.constantFrom('Root', 'a.b', 'Ærlig', '', 'A.', '..', ' A ', 'a/b', 'x.rs', 'UPPER', 'a"b', 'Root.json'), fc.oneof({ weight: 12, arbitrary: text(fc) }, { weight: 1, arbitrary: fc.record({ long: fc.tuple(fc.constantFrom('a', 'é', '\n'), fc.constantFrom(5000, 70_000, 1_100_000, 5_000_000)) }) })), { maxLength: 6 }), check: download, runs: n(4_000, 40_000) },
  ]);
