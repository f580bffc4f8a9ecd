// C24: the page and its worker together, under generated user actions and message schedules.
'use strict';
const { REPO, bundle, settle, start, n, canon, path, Harness } = require('./common.js');
const { FakeFile, worker, Storage, quiet, vm } = require('./world.js');
const { extract, open } = require('./page.js');
const util = require('util');
const assert = (ok, m) => { if (!ok) throw new Error(m); };

const workerCode = bundle(path.join(REPO, 'lib/worker.ts'), '__worker');
let ex; // the page's script
const examples = (() => {
  const c = vm.createContext({ console: quiet });
  vm.runInContext(bundle(path.join(REPO, 'examples/examples.ts'), '__lib'), c);
  return vm.runInContext('__lib.examples', c);
})();
const LARGE = 600_000;
const KEYS = { outputmode: 'output_mode', inputmode: 'input_mode', propertynameformat: 'property_name_format', importstyle: 'import_style', unwrappath: 'unwrap', collectadditional: 'collect_additional', infermapthreshold: 'infer_map_threshold' };
// options that the page only offers for some languages
const SHOWN = { property_name_format: ['rust', 'kotlin/jackson', 'python'], import_style: ['rust', 'kotlin/jackson', 'kotlin/kotlinx', 'python'], collect_additional: ['rust', 'kotlin/jackson'] };

async function session(steps, info) {
  ex = ex || await extract();
  const storage = new Storage();
  let calls, toWorker, toPage, w, app, files;
  let m; // the model: what the user chose
  const boot = () => {
    calls = []; toWorker = []; toPage = []; files = [];
    w = worker(workerCode, (name, input, options) => { calls.push({ name, input, options: JSON.parse(options) }); return ` \ncode ${calls.length - 1}\n\n`; });
    const post = w.out;
    toPage = post;
    app = open(ex, storage, (x) => toWorker.push(x));
    m = { input: app.get('input'), large: null, fields: {} };
    for (const id of Object.keys(ex.vars)) if (id !== 'input') m.fields[id] = app.get(id);
  };
  boot();
  await settle();
  const after = async () => { await settle(); app.flush(); await settle(); app.flush(); };
  const pendingSmall = () => files.some((f) => !f.done && f.size < LARGE);
  const tags = new Set();
  let broken = false; // the file in use could not be read: what is shown is not judged
  const finish = async (f) => {
    f.done = true;
    f.complete();
    if (f === m.large && f.fails) broken = true;
    await after(); await after();
  };
  const drain = async () => {
    for (let k = 0; k < 200; k++) {
      const f = files.find((x) => !x.done);
      if (toWorker.length) { w.send(toWorker.shift()); await after(); }
      else if (toPage.length) { app.receive(toPage.shift()); await after(); }
      else if (f) await finish(f);
      else return;
    }
    throw new Error('the page and the worker do not come to rest');
  };
  const judge = async (at) => {
    await drain();
    if (broken) { tags.add('unreadable file'); return; }
    const shown = app.page.show;
    const want = m.large ? m.large.content : (m.input || '{}');
    const id = /^code (\d+)$/.exec(shown.output());
    assert(id, `${at}: the page shows ${canon(shown.output())}`);
    const c = calls[+id[1]];
    assert(c.input === want, `${at}: the page shows the code for the input ${canon(c.input).slice(0, 300)}, chosen last was ${canon(want).slice(0, 300)}`);
    assert(c.name === m.fields.typename, `${at}: the page shows the code for the name ${canon(c.name)} instead of ${canon(m.fields.typename)}`);
    let extra = {};
    try { extra = JSON.parse(m.fields.extraoptions.trim() || '{}'); } catch (e) { extra = {}; }
    for (const [field, key] of Object.entries(KEYS)) {
      if (key in extra) continue;
      const v = field === 'collectadditional' ? !!m.fields[field] : m.fields[field];
      if (SHOWN[key] && !SHOWN[key].includes(m.fields.outputmode)) continue;
      assert(util.isDeepStrictEqual(c.options[key], v), `${at}: the page shows the code for ${key} ${canon(c.options[key])} instead of ${canon(v)}`);
    }
    for (const [k, v] of Object.entries(extra)) assert(canon(c.options[k]) === canon(v), `${at}: extra option ${k} is ${canon(c.options[k])} instead of ${canon(v)}`);
    assert(!shown.spinner(), `${at}: the page still says that a file is being loaded`);
    assert(!!shown.overlay() === !!m.large, `${at}: the note about a large file is ${shown.overlay() ? '' : 'not '}shown`);
    assert(app.blobs.get(shown.href()) === shown.output(), `${at}: the download holds ${canon(app.blobs.get(shown.href()))}, the page shows ${canon(shown.output())}`);
    assert(shown.download().startsWith(m.fields.typename + '.'), `${at}: the download is called ${shown.download()}`);
  };
  for (const [i, step] of steps.entries()) {
    const at = `step ${i + 1} ${canon(step).slice(0, 120)}`;
    const s = step.map((x) => {
      if (x && x.long) tags.add('long text');
      return x && x.long ? `"${x.long[0].repeat(x.long[1])}"` : x;
    });
    const text = (t) => { m.input = t; m.large = null; broken = false; };
    if (s[0] === 'type') {
      // the note about the large file covers the input
      if (app.page.show.overlay() || pendingSmall()) continue;
      app.set('input', s[1]);
      m.input = s[1];
      await after();
    } else if (s[0] === 'field') {
      app.set(s[1], s[2]);
      m.fields[s[1]] = s[2];
      await after();
    } else if (s[0] === 'example') {
      const e = examples[s[1] % examples.length];
      app.page.handlers.example(e);
      text(e.json);
      m.fields.typename = e.typeName;
      m.fields.propertynameformat = e.propertyNameFormat || '';
      tags.add('example');
      await after();
    } else if (s[0] === 'small' || s[0] === 'large') {
      // often another file of the same name, as in another directory or after it was edited
      const f = new FakeFile(['sample.json', `f${i}.json`][(i + s[1].length) % 2], s[1], s[0] === 'large' ? LARGE : s[1].length);
      f.fails = s[0] === 'large' && s[2] === true;
      if (files.length) tags.add('several files');
      files.push(f);
      app.page.handlers.file({ target: { files: [f], value: '' }, currentTarget: { files: [f] } });
      text(s[0] === 'large' ? '' : s[1]);
      if (s[0] === 'large') m.large = f;
      tags.add(s[0] + ' file');
      await after();
    } else if (s[0] === 'no file') {
      app.page.handlers.file({ target: { files: [] }, currentTarget: { files: [] } });
      await after();
    } else if (s[0] === 'clear') {
      if (!app.page.show.overlay()) continue;
      app.page.handlers.clear();
      text('');
      tags.add('clear');
      await after();
    } else if (s[0] === 'format') {
      if (app.page.show.overlay() || pendingSmall()) continue;
      app.page.handlers.format();
      try { m.input = JSON.stringify(JSON.parse(m.input), null, 2); } catch (e) { /* stays */ }
      await after();
    } else if (s[0] === 'worker') {
      for (let k = 0; k <= s[1] && toWorker.length; k++) w.send(toWorker.shift());
      await after();
    } else if (s[0] === 'page') {
      for (let k = 0; k <= s[1] && toPage.length; k++) { app.receive(toPage.shift()); app.flush(); }
      await after();
    } else if (s[0] === 'read') {
      const o = files.filter((f) => !f.done);
      if (o.length) {
        if (s[1] % o.length > 0) tags.add('reads out of order');
        await finish(o[s[1] % o.length]);
      }
    } else if (s[0] === 'rest') {
      await judge(at);
    } else if (s[0] === 'reload') {
      if (pendingSmall()) continue;
      const before = m;
      boot();
      tags.add('reload');
      // the page starts with what was chosen; an empty name or field falls back to its default
      for (const [id, v] of Object.entries(before.fields)) assert(!v || canon(m.fields[id]) === canon(v), `${at}: ${id} is ${canon(m.fields[id])} after a reload, chosen was ${canon(v)}`);
      assert(m.input === (before.large ? '' : before.input), `${at}: the input is ${canon(m.input)} after a reload, it was ${canon(before.input)}`);
      broken = false;
      await after();
    }
  }
  await judge('at the end');
  info.tags = [...tags];
  info.nontrivial = steps.filter((s) => ['type', 'field', 'example', 'small', 'large', 'clear'].includes(s[0])).length > 1;
}
const TEXTS = ['', '{}', '{"a":1}', '[1,2]', 'not json', ' {"b":2} ', 'null', 'é😀'];
const steps = (fc) => {
  const text = fc.oneof({ weight: 40, arbitrary: fc.constantFrom(...TEXTS) }, { weight: 1, arbitrary: fc.record({ long: fc.tuple(fc.constantFrom('a', 'é'), fc.constantFrom(1000, 70_000, 130_000, 270_000, 480_000)) }) });
  const field = fc.oneof(
    fc.tuple(fc.constant('field'), fc.constant('typename'), fc.constantFrom('A', 'B', 'Root', '', 'MyRoot')),
    fc.tuple(fc.constant('field'), fc.constant('outputmode'), fc.constantFrom('rust', 'typescript', 'typescript/typealias', 'kotlin/jackson', 'kotlin/kotlinx', 'python', 'json_schema', 'zod', 'shape')),
    fc.tuple(fc.constant('field'), fc.constant('inputmode'), fc.constantFrom('json', 'sql')),
    fc.tuple(fc.constant('field'), fc.constant('propertynameformat'), fc.constantFrom('', 'camelCase', 'snake_case')),
    fc.tuple(fc.constant('field'), fc.constant('importstyle'), fc.constantFrom('assume_existing', 'add_imports', 'qualified_paths')),
    fc.tuple(fc.constant('field'), fc.constant('unwrappath'), fc.constantFrom('', '/a', '/-')),
    fc.tuple(fc.constant('field'), fc.constant('collectadditional'), fc.boolean()),
    fc.tuple(fc.constant('field'), fc.constant('infermapthreshold'), fc.constantFrom('', '0', '2')),
    fc.tuple(fc.constant('field'), fc.constant('extraoptions'), fc.constantFrom('', '{}', '{"/a":{"use_type":"map"}}', '{', ' {"unwrap":"/z"} ', '{"output_mode":"zod"}')),
  );
  return fc.array(fc.oneof(
    { weight: 2, arbitrary: fc.tuple(fc.constant('type'), text) },
    { weight: 3, arbitrary: field },
    { weight: 2, arbitrary: fc.tuple(fc.constant('small'), text) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('large'), fc.constantFrom('{"L":1}', '[1]', 'large', '{"L":2}'), fc.integer({ min: 0, max: 9 }).map((k) => k === 0)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('clear')) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('example'), fc.nat(9)) },
    { weight: 1, arbitrary: fc.constantFrom(['format'], ['no file'], ['reload']) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('worker'), fc.nat(2)) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('page'), fc.nat(2)) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('read'), fc.nat(3)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('rest')) },
  ), { minLength: 1, maxLength: 16 });
};

start('C24',
  'sessions of up to 16 steps on the page script and the real worker script connected by two message queues: user actions (typing, fields, examples, small and large files, clear, format, reload) interleaved with message deliveries and file reads finishing in any order; judged whenever everything has come to rest; non-trivial = two or more user actions; distinct by hash of the session',
  ['the view is not rendered: bindings and handlers are taken from the markup, reactive statements run when a variable they mention has changed', 'nothing is typed while a small file is being read', 'what is shown while the file in use could not be read is not judged'],
  [{ name: 'sessions', arb: steps, check: session, runs: n(12_000, 300_000) }]);
