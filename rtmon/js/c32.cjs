"use strict";
const vm = require("vm");
const { World, dom } = require("./world.cjs");

let w, imports, boxes;
// a page as the parser delivers it: [["open", tag, attrs], ["close", tag], ["text", t], ["script", attrs, text]]
exports.open = async ({ location, parts }) => {
  imports = [];
  const modules = new Proxy({}, { get: (_, name) => (typeof name === "string" && /^https?:/.test(name) ? () => { imports.push(name); return { bind: (node) => ({ create: (t, p, c) => ({ t, p, c }), render: () => { node.textContent = "module " + name; }, unmount: () => {} }), Widget: "w" }; } : undefined) });
  w = new World({ location, modules });
  const out = { addresses: [], errors: [], mounts: 0, importmaps: [] };
  const stack = [w.document.documentElement];
  const deferred = [];
  const top = () => stack[stack.length - 1];
  const place = (el) => { top().appendChild(el); };
  const make = (tag, attrs) => { const el = w.document.createElement(tag); for (const [k, v] of Object.entries(attrs)) el.setAttribute(k, v); return el; };
  for (const [kind, a, b] of parts) {
    if (kind === "text") place(w.document.createTextNode(a));
    else if (kind === "open") {
      if (a === "html") continue;
      if (a === "head" || a === "body") { stack.push(w.document[a]); for (const [k, v] of Object.entries(b)) top().setAttribute(k, v); continue; }
      const el = make(a, b); place(el);
      if (a === "link" && b.href) out.addresses.push(b.href);
      if (!VOID.has(a)) stack.push(el);
    } else if (kind === "close") { const i = stack.map((e) => e.localName).lastIndexOf(a); if (i > 0) stack.length = i; }
    else {
      const el = make("script", a); el.textContent = b; place(el);
      if (a.src) out.addresses.push(a.src);
      const type = (a.type || "").toLowerCase();
      if (type === "module") deferred.push(b);
      else if (type === "" || type === "text/javascript") { try { vm.runInContext(b, w.ctx); } catch (e) { out.errors.push(String(e.stack || e)); } }
    }
  }
  const client = w.load("@reactpy/client");
  for (const text of deferred) {
    const scope = { ...client }, bound = {};
    const code = text.replace(/\bimport\s*\{([^}]*)\}\s*from\s*(["'])(.*?)\2\s*;?/g, (_, names, q, url) => {
      out.addresses.push(url);
      for (const n of names.split(",").map((x) => x.trim()).filter(Boolean)) { const [from, to] = n.split(/\s+as\s+/); bound[to || from] = scope[from]; if (!(from in scope)) out.errors.push("no export " + from); }
      return "";
    });
    const before = w.sockets.length;
    try { vm.runInContext(`(async function(${Object.keys(bound)}) {"use strict";${code}\n})`, w.ctx)(...Object.values(bound)).catch((e) => out.errors.push(String(e.stack || e))); } catch (e) { out.errors.push(String(e.stack || e)); }
    await w.advance(50);
    out.mounts += w.sockets.length - before;
  }
  for (const s of w.document.querySelectorAll("script")) if ((s.getAttribute("type") || s.type) === "importmap") out.importmaps.push([s.id || s.getAttribute("id"), s.textContent]);
  out.sockets = w.sockets.map((s) => s.url);
  out.page = w.document.body.innerHTML;
  w.onFrame = (f, s) => frames.push([w.sockets.indexOf(s), f]);
  return out;
};
const VOID = new Set("area base br col embed hr img input link meta source track wbr".split(" "));
let frames = [];
exports.accept = async () => { for (const s of w.sockets) if (s.readyState === 0) s.accept(); await w.drain(); return null; };
exports.receive = async (i, data) => { w.sockets[i].receive(data); await w.advance(50); return look(); };
exports.click = async (id) => { frames = []; const el = w.document.getElementById(id); if (el) el.dispatchEvent(new dom.MouseEvent("click", { bubbles: true, cancelable: true })); await w.advance(50); return { found: !!el, frames }; };
const look = (exports.look = () => {
  const out = { boxes: [], imports, errors: w.errors.map(String) };
  for (const el of w.document.querySelectorAll("p")) if (/^state-/.test(el.id)) { const box = el.closest("div"); out.boxes.push({ id: el.id.slice(6), text: el.textContent, box: box && box.id, cls: box && box.className }); }
  return out;
});
// the server is gone: how often and when is it tried again?
exports.outage = async (most) => {
  const tries = {};
  const url = (s) => s.url;
  const open = w.sockets.filter((s) => s.readyState === 1);
  for (const s of open) tries[url(s)] = [];
  const last = {};
  w.onSocket = (s) => { tries[url(s)].push(w.now - last[url(s)]); waiting.push(s); };
  let waiting = [];
  for (const s of open) { last[url(s)] = w.now; s.drop(); }
  for (let i = 0; i < most; i++) {
    await w.advance(0);
    if (!w.timers.length && !waiting.length) break;
    for (const s of waiting.splice(0)) { last[url(s)] = w.now; s.drop(); await w.drain(); }
    const t = w.due();
    if (!t) break;
    await w.advance(t.at - w.now);
  }
  return Object.entries(tries);
};
