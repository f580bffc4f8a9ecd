// The script of the page (App.svelte), run without the view: the markup tells which variable and handler is which.
'use strict';
const { REPO, req, fs, path, Harness } = require('./common.js');
const { fileReaderClass, quiet, vm } = require('./world.js');

async function extract() {
  const ts = req('typescript');
  const src = fs.readFileSync(path.join(REPO, 'App.svelte'), 'utf8');
  const m = /<script\b[^>]*>([\s\S]*?)<\/script>/.exec(src);
  if (!m) throw new Harness('App.svelte: no script');
  const script = m[1];
  let code;
  const view = src.slice(m.index + m[0].length);
  const sf = ts.createSourceFile('App.ts', script, ts.ScriptTarget.ES2022, true);
  const lets = [];
  const names = (n) => (ts.isIdentifier(n) ? [n.text] : n.elements ? n.elements.flatMap((e) => (e.name ? names(e.name) : [])) : []);
  const edits = [];
  const reactive = [];
  for (const s of sf.statements) {
    if (ts.isVariableStatement(s) && !(s.declarationList.flags & ts.NodeFlags.Const)) s.declarationList.declarations.forEach((d) => lets.push(...names(d.name)));
    if (ts.isLabeledStatement(s) && s.label.text === '$') {
      const deps = new Set();
      const visit = (n) => { if (ts.isIdentifier(n)) deps.add(n.text); ts.forEachChild(n, visit); };
      visit(s.statement);
      const k = reactive.length;
      const e = ts.isExpressionStatement(s.statement) && ts.isBinaryExpression(s.statement.expression) && ts.isIdentifier(s.statement.expression.left) && s.statement.expression.operatorToken.kind === ts.SyntaxKind.EqualsToken ? s.statement.expression.left.text : null;
      reactive.push({ deps, assigned: e });
      const fresh = e && !lets.includes(e);
      edits.push([s.getStart(), s.end, (body) => `${fresh ? `let ${e}; ` : ''}function __reactive${k}() { ${body} }`]);
      if (fresh) lets.push(e);
    }
  }
  // an assignment to a top-level variable that changes it makes the statements that mention it run
  const declares = (f, name) => {
    let r = false;
    const visit = (n) => {
      if (ts.isVariableDeclaration(n) || ts.isParameter(n)) { if (names(n.name).includes(name)) r = true; }
      ts.forEachChild(n, (c) => visit(c));
    };
    (f.parameters || []).forEach(visit);
    if (f.body) visit(f.body);
    return r;
  };
  const assignments = [];
  const isTop = (n, name) => {
    if (!lets.includes(name)) return false;
    for (let p = n.parent; p; p = p.parent) if (ts.isFunctionLike(p) && declares(p, name)) return false;
    return true;
  };
  const find = (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment && ts.isIdentifier(n.left) && isTop(n, n.left.text)) assignments.push([n, n.left.text]);
    if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && [ts.SyntaxKind.PlusPlusToken, ts.SyntaxKind.MinusMinusToken].includes(n.operator) && ts.isIdentifier(n.operand) && isTop(n, n.operand.text)) assignments.push([n, n.operand.text]);
    ts.forEachChild(n, find);
  };
  find(sf);
  for (const [n, name] of assignments) {
    edits.push([n.getStart(), n.getStart(), `__inv(${JSON.stringify(name)}, ${name}, (`]);
    edits.push([n.end, n.end, `), () => ${name})`]);
  }
  // the reactive statements are replaced as wholes, with what was inserted into them
  const inserts = edits.filter((e) => e[0] === e[1]);
  const wholes = edits.filter((e) => e[0] !== e[1]);
  const apply = (text, from, list) => {
    for (const [a, b, t] of list.map((e, i) => [...e, i]).sort((x, y) => y[0] - x[0] || x[3] - y[3])) text = text.slice(0, a - from) + t + text.slice(b - from);
    return text;
  };
  const outer = inserts.filter((e) => !wholes.some((q) => e[0] >= q[0] && e[0] <= q[1]));
  for (const q of wholes) {
    const inside = inserts.filter((e) => e[0] >= q[0] && e[0] <= q[1]);
    q[2] = q[2](apply(script.slice(q[0], q[1]), q[0], inside).replace(/^\$\s*:/, ''));
  }
  code = apply(script, 0, [...outer, ...wholes]);
  const pick = (re, what) => {
    const r = re.exec(view);
    if (!r) throw new Harness('App.svelte: cannot find ' + what);
    return r[1];
  };
  const bound = (id) => pick(new RegExp(`<\\w+\\b[^<>]*?id="${id}"[^<]*?bind:(?:value|checked)=\\{(\\w+)\\}`), 'the variable of ' + id);
  const v = {};
  for (const id of ['typename', 'input', 'inputmode', 'outputmode', 'propertynameformat', 'importstyle', 'collectadditional', 'unwrappath', 'extraoptions', 'infermapthreshold']) v[id] = bound(id);
  const expr = (re, what) => pick(re, what);
  const x = {
    output: expr(/<HighlightedCode\b[^<]*?code=\{([^{}]+)\}/, 'the output'),
    href: expr(/href=\{([^{}]+\.href)\}/, 'the download link'),
    download: expr(/download=\{([^{}]+\.download)\}/, 'the download name'),
    overlay: expr(/\{#if (\w+)\}\s*<div id="large-file-overlay"/, 'the overlay'),
    spinner: expr(/\{#if (\w+)\}\s*<Spinner/, 'the spinner'),
  };
  const h = {
    file: expr(/<FileInputButton\b[^<]*?on:change=\{([\s\S]*?)\}\s*>/, 'the file handler'),
    clear: expr(/on:click=\{(\w+)\}\s*>\s*Clear input file/, 'the clear handler'),
    format: expr(/<Button on:click=\{(\w+)\}\s*>\s*<CodeBracketIcon/, 'the format handler'),
    example: expr(/on:click=\{(\(\) => [^}]*?)\}\s*>\s*\{example\.name\}/, 'the example handler'),
  };
  code += `
declare const __inv: any;
;globalThis.__page = {
  get: { ${[...new Set(lets)].map((n) => `${n}: () => ${n}`).join(', ')} },
  set: { ${Object.values(v).map((n) => `${n}: (__v: any) => { __inv('${n}', ${n}, (${n} = __v), () => ${n}); }`).join(', ')} },
  show: { ${Object.entries(x).map(([k, e]) => `${k}: () => (${e})`).join(', ')} },
  handlers: { file: ${h.file}, clear: ${h.clear}, format: ${h.format}, example: (example: any) => (${h.example})() },
  reactive: [${reactive.map((_, k) => `__reactive${k}`).join(', ')}],
};
`;
  const r = await req('esbuild').build({
    stdin: { contents: code, loader: 'ts', resolveDir: REPO, sourcefile: 'App.ts' },
    bundle: true, write: false, format: 'iife', target: 'es2022', logLevel: 'silent', tsconfigRaw: '{"compilerOptions":{"verbatimModuleSyntax":false}}',
    define: { 'import.meta.url': '"http://page/src/App.svelte"' },
    plugins: [{ name: 'stubs', setup(b) {
      b.onResolve({ filter: /\.(svelte|css|svg)$|^svelte|^shiki/ }, (a) => ({ path: a.path, namespace: 'stub' }));
      b.onLoad({ filter: /.*/, namespace: 'stub' }, () => ({ contents: 'module.exports = {}', loader: 'js' }));
    } }],
  });
  const dependencies = reactive.map((q) => [...q.deps].filter((d) => lets.includes(d) && d !== q.assigned));
  // a statement runs after those that assign what it mentions
  const order = [];
  const add = (i, path) => {
    if (order.includes(i) || path.includes(i)) return;
    reactive.forEach((q, j) => { if (j !== i && q.assigned && dependencies[i].includes(q.assigned)) add(j, [...path, i]); });
    order.push(i);
  };
  reactive.forEach((_, i) => add(i, []));
  return { code: r.outputFiles[0].text, vars: v, dependencies, order, lets };
}

// Opens the page. channel.toWorker(message) is called for every message to the worker.
function open(ex, localStorage, toWorker) {
  const blobs = new Map();
  let k = 0;
  let w;
  class Worker {
    constructor() { w = this; this.onmessage = null; this.l = []; }
    postMessage(m) { toWorker(m); }
    addEventListener(t, f) { if (t === 'message') this.l.push(f); }
    terminate() {}
  }
  class PageURL extends URL {}
  PageURL.createObjectURL = (b) => { const u = `blob:p/${k++}`; blobs.set(u, b.parts.join('')); return u; };
  PageURL.revokeObjectURL = () => {};
  const g = {
    Worker, URL: PageURL, Blob: class { constructor(p) { this.parts = p; } }, FileReader: fileReaderClass(), localStorage, console: quiet,
    navigator: { clipboard: { writeText() {} } }, setTimeout, clearTimeout, queueMicrotask, location: { hash: '', href: 'http://page/' }, addEventListener() {},
  };
  g.window = g; g.self = g;
  let dirty = null; // everything
  g.__inv = (name, old, now, get) => {
    const v = get();
    if (dirty && ((v && typeof v === 'object') || typeof v === 'function' || !Object.is(old, v))) dirty.add(name);
    return now;
  };
  const ctx = vm.createContext(g);
  vm.runInContext(ex.code, ctx);
  const p = ctx.__page;
  const flush = () => {
    for (let round = 0; round < 20; round++) {
      if (dirty && dirty.size === 0) return;
      // what an earlier statement changes is seen by the later ones, not by itself or those before it
      ex.order.forEach((i) => { if (dirty === null || ex.dependencies[i].some((d) => dirty.has(d))) p.reactive[i](); });
      dirty = new Set();
    }
  };
  flush();
  return {
    page: p, flush, blobs, examples: null,
    get: (id) => p.get[ex.vars[id]](),
    set: (id, x) => { p.set[ex.vars[id]](x); },
    receive(m) {
      const e = { data: m };
      if (w.onmessage) w.onmessage(e);
      w.l.forEach((f) => f(e));
    },
  };
}
module.exports = { extract, open };
