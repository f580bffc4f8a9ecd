// A worker, files and storage as the browser offers them, with every delay under the control of the check.
'use strict';
const vm = require('vm');

// A file whose content becomes readable when the check says so.
class FakeFile {
  constructor(name, content, size) {
    this.name = name; this.content = content; this.size = size === undefined ? content.length : size; this.type = 'application/json'; this.lastModified = 0;
    this.waiting = []; this.done = false;
  }
  read() {
    return new Promise((res, rej) => {
      const go = () => (this.fails ? rej(new Error('cannot be read')) : res(this.content));
      if (this.done) setImmediate(go); else this.waiting.push(go);
    });
  }
  text() { return this.read(); }
  arrayBuffer() { return this.read().then((s) => new TextEncoder().encode(s).buffer); }
  slice() { return this; }
  complete() { this.done = true; const w = this.waiting; this.waiting = []; w.forEach((f) => f()); }
}
function fileReaderClass() {
  return class FileReader {
    constructor() { this.result = null; this.onload = null; this.onerror = null; this.onloadend = null; this.handlers = []; }
    addEventListener(t, f) { this.handlers.push([t, f]); }
    readAsText(file) {
      file.read().then((s) => {
        this.result = s;
        const e = { target: this, type: 'load' };
        if (this.onload) this.onload(e);
        this.handlers.filter((h) => h[0] === 'load').forEach((h) => h[1](e));
        if (this.onloadend) this.onloadend(e);
        this.handlers.filter((h) => h[0] === 'loadend').forEach((h) => h[1](e));
      }, (error) => {
        this.error = error;
        const e = { target: this, type: 'error' };
        if (this.onerror) this.onerror(e);
        this.handlers.filter((h) => h[0] === 'error').forEach((h) => h[1](e));
        if (this.onloadend) this.onloadend(e);
        this.handlers.filter((h) => h[0] === 'loadend').forEach((h) => h[1](e));
      });
    }
  };
}
const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };

// Runs the bundled worker script; out: messages it posts; calls: calls of the code generator
function worker(code, run) {
  const out = [];
  const listeners = [];
  const g = {
    postMessage: (m) => out.push(JSON.parse(JSON.stringify(m))),
    onmessage: null, FileReader: fileReaderClass(), console: quiet, setTimeout, clearTimeout, queueMicrotask, TextDecoder, TextEncoder,
    addEventListener: (t, f) => { if (t === 'message') listeners.push(f); },
    __wasmInit: () => Promise.resolve(),
    __wasmRun: run,
  };
  g.self = g;
  const ctx = vm.createContext(g);
  vm.runInContext(code, ctx);
  return {
    out,
    send(data) {
      const e = { data };
      if (ctx.onmessage) ctx.onmessage(e);
      listeners.forEach((f) => f(e));
    },
  };
}
class Storage {
  constructor() { this.m = new Map(); }
  getItem(k) { return this.m.has(String(k)) ? this.m.get(String(k)) : null; }
  setItem(k, v) { this.m.set(String(k), String(v)); }
  removeItem(k) { this.m.delete(String(k)); }
  clear() { this.m.clear(); }
  get length() { return this.m.size; }
  key(i) { return [...this.m.keys()][i] ?? null; }
}
module.exports = { FakeFile, fileReaderClass, worker, Storage, quiet, vm };
