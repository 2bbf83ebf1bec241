// One page: virtual time, sockets, document, and the client's own modules.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const dom = require("./dom.cjs"), makePreact = require("./preact.cjs");

const SRC = path.join(process.env.RTMON_REPO || "/repo", "src/js/packages");
const PACKAGES = { "@reactpy/client": path.join(SRC, "@reactpy/client/src"), "event-to-object": path.join(SRC, "event-to-object/src") };
const compiled = new Map();
function compile(file) {
  if (!compiled.has(file)) {
    const out = ts.transpileModule(fs.readFileSync(file, "utf8"), { fileName: file, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, jsx: ts.JsxEmit.ReactJSX, jsxImportSource: "preact", esModuleInterop: true } });
    compiled.set(file, new vm.Script(`(function(require,module,exports){${out.outputText}\n})`, { filename: file }));
  }
  return compiled.get(file);
}
function find(base) {
  for (const f of [base, base + ".ts", base + ".tsx", base + "/index.ts", base + "/index.tsx", base.replace(/\.js$/, ".ts"), base.replace(/\.js$/, ".tsx")]) if (fs.existsSync(f) && fs.statSync(f).isFile()) return f;
  throw new Error("no module " + base);
}
// JSON pointers as in the json-pointer package
function pointer() {
  const parse = (p) => { if (Array.isArray(p)) return p; if (p === "") return []; if (p[0] !== "/") throw new Error("Invalid pointer: " + p); return p.slice(1).split("/").map((t) => t.replace(/~1/g, "/").replace(/~0/g, "~")); };
  const get = (o, p) => { for (const t of parse(p)) { if (!(typeof o === "object" && t in o)) throw new Error("Invalid reference token: " + t); o = o[t]; } return o; };
  const set = (o, p, v) => {
    const tokens = parse(p);
    if (!tokens.length) throw new Error("Can not set the root document");
    let next = tokens[0];
    for (let i = 0; i < tokens.length - 1; i++) {
      let t = String(tokens[i]);
      if (t === "__proto__" || t === "constructor" || t === "prototype") continue;
      if (t === "-" && Array.isArray(o)) t = o.length;
      next = tokens[i + 1];
      if (!(t in o)) o[t] = /^(\d+|-)$/.test(next) ? [] : {};
      o = o[t];
    }
    if (next === "-" && Array.isArray(o)) next = o.length;
    o[tokens[tokens.length - 1]] = v;
  };
  const has = (o, p) => { try { get(o, p); return true; } catch { return false; } };
  const api = (o, p, v) => (v === undefined ? get(o, p) : set(o, p, v));
  return Object.assign(api, { get, set, has, parse, default: { get, set, has, parse } });
}

class World {
  constructor(opt = {}) {
    this.now = 1700000000000;
    this.timers = [];
    this.ids = 1;
    this.errors = [];
    this.logs = [];
    this.sockets = [];
    this.modules = opt.modules || {};
    this.cache = new Map();
    this.document = new dom.Document();
    const world = this, box = {};
    const { S, walk, eventKinds, ...names } = dom;
    Object.assign(box, names);
    const ctx = (this.ctx = vm.createContext(box));
    const g = (this.window = vm.runInContext("globalThis", ctx));
    this.document.defaultView = g;
    box.Window = class Window { static [Symbol.hasInstance](x) { return x === g || x === box; } };
    box.Document = dom.Document;
    box.setTimeout = (f, ms = 0, ...a) => { const id = world.ids++; world.timers.push({ at: world.now + Math.max(0, Math.min(Number(ms) || 0, 2 ** 31 - 1)), id, f, a, ms: Number(ms) }); world.onTimer && world.onTimer(ms); return id; };
    box.clearTimeout = (id) => { world.timers = world.timers.filter((t) => t.id !== id); };
    box.setInterval = (f, ms = 0, ...a) => { const id = world.ids++; world.timers.push({ at: world.now + Math.max(1, ms), id, f, a, every: Math.max(1, ms) }); return id; };
    box.clearInterval = box.clearTimeout;
    box.requestAnimationFrame = (f) => box.setTimeout(() => f(world.now), 16);
    box.cancelAnimationFrame = box.clearTimeout;
    box.queueMicrotask = queueMicrotask;
    box.performance = { now: () => world.now - 1700000000000 };
    const log = (k) => (...a) => { world.logs.push([k, a]); };
    box.console = { log: log("log"), info: log("info"), warn: log("warn"), error: log("error"), debug: log("debug") };
    box.URL = URL; box.URLSearchParams = URLSearchParams; box.TextEncoder = TextEncoder; box.structuredClone = structuredClone;
    box.location = { protocol: "http:", host: "stand.in", origin: "http://stand.in", pathname: "/", search: "", ...opt.location };
    box.document = this.document;
    box.navigator = { onLine: true };
    box.getSelection = () => (opt.selection ? opt.selection() : null);
    box.customElements = { define: (n, c) => world.document.registry.set(n, c), get: (n) => world.document.registry.get(n) };
    box.CSS = {};
    box.__now = () => world.now;
    vm.runInContext("{const D=Date; globalThis.Date=class Date extends D{constructor(...a){a.length?super(...a):super(__now())} static now(){return __now()}}}", ctx);
    box.WebSocket = class WebSocket extends dom.EventTarget {
      constructor(url) {
        super();
        Object.assign(this, { url: String(url), readyState: 0, frames: [], opened: world.now, onopen: null, onmessage: null, onclose: null, onerror: null, bufferedAmount: 0 });
        world.sockets.push(this);
        world.onSocket && world.onSocket(this);
      }
      send(data) {
        if (this.readyState === 0) throw new Error("InvalidStateError");
        if (this.readyState === 1) { this.frames.push(data); world.onFrame && world.onFrame(data, this); }
        else { this.lost = (this.lost || 0) + 1; }
      }
      close() { if (this.readyState < 2) this.readyState = 2; }
      fire(type, e = {}) {
        const ev = Object.assign(new dom.Event(type), e);
        if (typeof this["on" + type] === "function") this["on" + type](ev);
        this.dispatchEvent(ev);
      }
      accept() { this.readyState = 1; this.fire("open"); }
      receive(data) { this.fire("message", { data }); }
      drop(code = 1006) { this.readyState = 3; if (code === 1006) this.fire("error"); this.fire("close", { code }); }
    };
    for (const [k, v] of Object.entries({ CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 })) { box.WebSocket[k] = v; box.WebSocket.prototype[k] = v; }
    box.window = box.self = g;
    g.addEventListener = box.document.addEventListener.bind(box.document);
    g.removeEventListener = box.document.removeEventListener.bind(box.document);
    this.react = makePreact(this);
    this.pointer = pointer();
  }

  load(name) {
    if (this.react[name]) return this.react[name];
    if (name === "react" || name === "react-dom/client") { if (this.modules[name]) return this.modules[name]; throw new Error("Cannot find module " + name); }
    if (name === "json-pointer") return this.pointer;
    if (this.modules[name]) { const m = this.modules[name]; return typeof m === "function" ? m() : m; }
    const [pkg] = Object.keys(PACKAGES).filter((p) => name === p || name.startsWith(p + "/"));
    if (pkg) return this.file(find(path.join(PACKAGES[pkg], name === pkg ? "index.ts" : name.slice(pkg.length + 1))));
    if (path.isAbsolute(name)) return this.file(find(name));
    throw new Error("Cannot find module " + name);
  }
  file(f) {
    if (!this.cache.has(f)) {
      const module = { exports: {} };
      this.cache.set(f, module);
      const req = (n) => (n[0] === "." ? this.file(find(path.resolve(path.dirname(f), n))) : this.load(n));
      compile(f).runInContext(this.ctx)(req, module, module.exports);
    }
    return this.cache.get(f).exports;
  }

  drain() { return new Promise((r) => setImmediate(r)); }
  due() { return this.timers.reduce((m, t) => (m === null || t.at < m.at || (t.at === m.at && t.id < m.id) ? t : m), null); }
  async advance(ms) {
    const end = this.now + ms;
    await this.drain();
    for (;;) {
      const t = this.due();
      if (!t || t.at > end) break;
      this.now = Math.max(this.now, t.at);
      if (t.every) t.at += t.every; else this.timers = this.timers.filter((x) => x !== t);
      try { t.f(...t.a); } catch (e) { this.errors.push(e); }
      await this.drain();
    }
    this.now = end;
  }
}
module.exports = { World, dom };
