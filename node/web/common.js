// Shared by the checks of the web interface: bundling, evidence, replay, regression inputs.
'use strict';
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const MODS = process.env.VERIF_NODE_MODULES || '/opt/veriftools/node/node_modules';
const req = (m) => require(require.resolve(m, { paths: [MODS] }));
const ROOT = path.resolve(__dirname, '../..');
const REPO = '/repo/json_typegen_web/src';
const seed = parseInt(process.env.VERIF_SEED || '1', 10) | 0;
const thorough = process.env.VERIF_TIER === 'thorough';
const scale = parseFloat(process.env.VERIF_SCALE || '1');
const n = (quick, deep) => Math.max(1, Math.round((thorough ? deep : quick) * scale));

function bundle(entry, globalName) {
  let r;
  try {
    r = req('esbuild').buildSync({
    ...(typeof entry === 'string' ? { entryPoints: [entry] } : { stdin: entry }),
    bundle: true, write: false, format: 'iife', globalName, target: 'es2022', logLevel: 'silent', tsconfigRaw: '{}',
    alias: { json_typegen_wasm: path.join(__dirname, 'wasm_stub.js') },
    });
  } catch (e) {
    console.error('HARNESS-ERROR: the scripts cannot be bundled:', e && e.message || e);
    process.exit(3);
  }
  return r.outputFiles[0].text;
}
// Lets everything that is ready happen (promise callbacks of all contexts).
const settle = () => new Promise((r) => setImmediate(r));

class Harness extends Error {}
const canon = (x) => JSON.stringify(x);

async function main(id, rule, assumptions, campaigns, minimise) {
  const t0 = Date.now();
  const fc = req('fast-check');
  const byName = new Map(campaigns.map((c) => [c.name, c]));
  const [cmd, file] = process.argv.slice(2);
  const one = async (c) => {
    const k = byName.get(c.campaign);
    if (!k) throw new Harness('unknown campaign ' + c.campaign);
    try {
      await k.check(c.case, {});
      return null;
    } catch (e) {
      if (e instanceof Harness) throw e;
      return String((e && e.message) || e);
    }
  };
  if (cmd === 'replay') {
    const v = JSON.parse(fs.readFileSync(file, 'utf8'));
    const m = await one(v.campaign ? v : v.case);
    if (m === null) { console.log('passes'); return 0; }
    console.log(`VIOLATION property=${id} replay=${file}\n  ${m.replace(/\n/g, '\n  ')}`);
    return 1;
  }
  let violations = 0;
  const report = (campaign, c, m) => {
    violations++;
    const dir = path.join(ROOT, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    const f = path.join(dir, `${id}-${crypto.createHash('sha1').update(campaign + canon(c)).digest('hex').slice(0, 16)}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, campaign, case: c, message: m, seed }, null, 1));
    console.log(`VIOLATION property=${id} replay=${f}\n  case: ${canon(c)}\n  ${m.replace(/\n/g, '\n  ')}`);
  };
  // known findings and regression inputs
  const known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known_findings.json'), 'utf8')).filter((f) => f.property === id && f.status === 'known' && f.case);
  let kf = 0, replayed = 0;
  for (const f of known) {
    if ((await one(f.case)) !== null) { kf++; console.log(`KNOWN-FINDING: property=${id} ${f.what}`); }
  }
  const corpus = path.join(ROOT, 'corpus', id + '.jsonl');
  if (fs.existsSync(corpus)) {
    for (const l of fs.readFileSync(corpus, 'utf8').split('\n').filter((l) => l.trim())) {
      const c = JSON.parse(l);
      replayed++;
      const m = await one(c);
      if (m !== null && violations < 3) report(c.campaign, c.case, m);
    }
  }
  const classes = {}, per = {}, samples = [], distinct = new Set();
  let evaluations = 0;
  for (const k of campaigns) {
    if (violations) break;
    if (process.env.VERIF_CAMPAIGN && process.env.VERIF_CAMPAIGN !== k.name) continue;
    if (!k.arb) continue;
    let failed = false;
    let first = true;
    const r = await fc.check(fc.asyncProperty(k.arb(fc), async (c) => {
      const info = { tags: [], nontrivial: false };
      await k.check(c, info).catch((e) => { failed = true; throw e; });
      if (!failed) {
        evaluations++;
        per[k.name] = (per[k.name] || 0) + 1;
        for (const t of new Set(info.tags)) classes[t] = (classes[t] || 0) + 1;
        if (info.nontrivial) {
          const h = crypto.createHash('sha1').update(k.name + canon(c)).digest('base64');
          if (!distinct.has(h)) {
            distinct.add(h);
            if (samples.length < 8 && (first || distinct.size % 500 === 0)) { samples.push({ campaign: k.name, case: c }); first = false; }
          }
        }
      }
    }), { seed: seed * 1000 + k.name.length, numRuns: k.runs, endOnFailure: false, maxSkipsPerRun: 1000 });
    if (r.errorInstance instanceof Harness) throw r.errorInstance;
    if (r.failed) report(k.name, r.counterexample[0], String((r.errorInstance && r.errorInstance.message) || r.error));
  }
  const wall = (Date.now() - t0) / 1000;
  const ev = {
    property: id, tier: thorough ? 'thorough' : 'quick', seed, level: 'exploration',
    coverage: { evaluations, distinct_nontrivial: distinct.size, rule, samples, per_campaign: per, classes, regression_inputs_replayed: replayed, known_findings_reproduced: kf },
    assumptions, wall_s: Math.round(wall * 100) / 100, violations,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 2) + '\n');
  console.log(`${id}: ${evaluations} evaluations, ${distinct.size} distinct non-trivial, ${violations} violations, ${wall.toFixed(1)}s`);
  if (process.env.VERIF_DEBUG) console.log(classes);
  return violations ? 1 : 0;
}
function start(...a) {
  process.on('unhandledRejection', () => {});
  main(...a).then((rc) => process.exit(rc), (e) => { console.error('HARNESS-ERROR:', e && e.stack || e); process.exit(3); });
}
module.exports = { req, ROOT, REPO, bundle, settle, Harness, start, n, canon, fs, path };
