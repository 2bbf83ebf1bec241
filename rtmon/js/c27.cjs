"use strict";
const { World, dom } = require("./world.cjs");

let w, box, ids, byId, frames, bindings, violations, mode;
const bad = (kind, detail) => { if (violations.length < 5) violations.push({ kind, detail: String(detail).slice(0, 2000) }); };
const idOf = (n) => { if (!ids.has(n)) { ids.set(n, ids.size + 1); byId.set(ids.get(n), n); Object.defineProperty(n, "rtid", { value: ids.get(n), enumerable: true }); } return ids.get(n); };
const NAMES = { custom: "Custom" };

// ---- modules a component can be imported from
function later(m, ms) {
  if (ms === 0) return m;
  const p = new Promise((resolve, reject) => { if (ms > 0) w.window.setTimeout(() => resolve(m), ms); else if (ms === -1) w.window.setTimeout(() => reject(new Error("cannot load")), 5); });
  p.__esModule = true;
  return p;
}
function ownBind(label) {
  // a framework of its own: elements are plain objects, rendering replaces everything
  return (node, context) => {
    const b = { label, node, live: false, binds: 1, renders: 0, unmounts: 0, context, children: new Map() };
    if (bindings.some((o) => o.node === node && o.live)) bad("bound-twice", `${label}: bound again to an element in use`);
    b.again = bindings.filter((o) => o.node === node).length;
    bindings.push(b);
    const draw = (e) => {
      if (e === null || e === undefined || typeof e === "boolean") return [];
      if (typeof e === "string" || typeof e === "number") return [w.document.createTextNode(e)];
      if (Array.isArray(e)) return e.flatMap(draw);
      if (typeof e.type === "function") return e.children.flatMap(draw);
      const el = w.document.createElement(typeof e.type === "string" ? e.type : e.type.is);
      for (const [k, v] of Object.entries(e.props || {})) {
        if (k === "ref") { el.later = v; Object.defineProperty(el, "later", { enumerable: false }); continue; }
        if (typeof v === "function") { Object.defineProperty(el, "call_" + k, { value: v, configurable: true }); el.setAttribute("data-has", ((el.getAttribute("data-has") || "") + " " + k.toLowerCase()).trim()); }
        else if (k !== "key" && v !== null && v !== undefined) el.setAttribute(k, typeof v === "object" ? JSON.stringify(v) : v);
      }
      for (const c of draw(e.children)) el.appendChild(c);
      return [el];
    };
    return {
      create: (type, props, children) => ({ type, props, children: children || [] }),
      render: (e) => {
        if (!b.live && b.unmounts && !mode[label].before) bad("render-after-unmount", `${label}: rendered after it was unmounted`);
        if (!b.live && !node.isConnected) bad("render-detached", `${label}: rendered for an element that is gone`);
        if (b.live && mode[label].before) bad("no-unmount-before-update", `${label}: rendered again without being unmounted`);
        b.live = true; b.renders++;
        while (node.firstChild) node.removeChild(node.firstChild);
        const made = draw(e);
        for (const x of made) node.appendChild(x);
        const refs = (n) => { if (n.later) n.later(n); for (const c of n.childNodes) refs(c); };
        made.forEach(refs);
      },
      unmount: () => {
        if (!b.live && b.unmounts) bad("unmounted-twice", `${label}: unmounted though not rendered`);
        b.live = false; b.unmounts++;
        while (node.firstChild) node.removeChild(node.firstChild);
      },
    };
  };
}
function makeModules(spec) {
  const out = {};
  const h = w.react.preact.createElement;
  mode = {};
  for (const m of spec) {
    mode[m.name] = m;
    const comp = (is) => (m.kind === "bind" ? { is } : (p) => { const { children, ...rest } = p; const a = {}; for (const k in rest) if (typeof rest[k] !== "function") a[k] = rest[k] && typeof rest[k] === "object" ? JSON.stringify(rest[k]) : rest[k]; const fns = Object.keys(rest).filter((k) => typeof rest[k] === "function"); if (fns.length) a["data-has"] = fns.map((k) => k.toLowerCase()).join(" "); return h(is, { ...a, ref: (n) => { if (n) for (const k of fns) Object.defineProperty(n, "call_" + k, { value: rest[k], configurable: true }); } }, children); });
    const exports = { __esModule: true, Comp: comp("imp-comp-" + m.name), Other: comp("imp-other-" + m.name), Ns: { Deep: { Er: comp("imp-deep-" + m.name) } } };
    if (m.kind === "bind") exports.bind = ownBind(m.name);
    if (m.kind === "react") { out.react = w.react["preact/compat"]; out["react-dom/client"] = w.react["preact/compat/client"]; }
    out[m.url] = () => later(exports, m.delay);
  }
  return out;
}

exports.open = async (opt) => {
  w = new World();
  w.modules = makeModules(opt.modules || []);
  ids = new Map(); byId = new Map(); frames = []; bindings = []; violations = [];
  globalThis.rejections.length = 0;
  w.onFrame = (f) => frames.push(JSON.parse(f));
  const m = w.load("@reactpy/client");
  box = w.document.body.appendChild(w.document.createElement("div"));
  m.mountReactPy({ mountElement: box, pathPrefix: "/_r/", componentPath: "c", reconnectInterval: 10 });
  await w.advance(1);
  return w.sockets.length;
};
const socket = () => w.sockets[w.sockets.length - 1];
exports.accept = async () => { for (let i = 0; i < 100 && !(socket() && socket().readyState === 0); i++) await w.advance(50); socket().accept(); await w.drain(); return take(); };
exports.drop = async () => { socket().drop(); await w.drain(); return null; };
const take = () => { const f = frames; frames = []; return f; };
exports.receive = async (messages, between) => {
  for (const [i, m] of messages.entries()) { socket().receive(m); await w.advance(between[i]); }
  await w.drain();
  return take();
};
exports.settle = async () => {
  for (let i = 0; i < 50 && (w.timers.length || w.react.isDirty()); i++) await w.advance(100);
  return { frames: take(), ...look() };
};
exports.advance = async (ms) => { await w.advance(ms); return { frames: take(), ...look() }; };
function look() {
  const see = (n) => {
    if (n.nodeType === 3) return n.nodeValue;
    const a = {};
    for (const k of n.getAttributeNames()) if (k !== "style" && k !== "key") a[k] = n.getAttribute(k);
    const s = [...n.style].map((k) => `${k}: ${n.style.getPropertyValue(k)}`).sort().join("; ");
    if (s) a.style = s;
    return [idOf(n), n.localName, a, [...n.childNodes].map(see)];
  };
  const live = bindings.filter((b) => b.live).map((b) => [b.label, b.again]);
  for (const e of w.errors) bad("error", e.stack || e);
  for (const b of bindings) if (b.live && !b.node.isConnected) bad("still-mounted", `${b.label}: never unmounted (${b.node.localName} in ${b.node.parentNode && b.node.parentNode.localName}, ${b.renders} renders, ${b.unmounts} unmounts)`);
  return { tree: [...box.childNodes].map(see), scripts: w.document.scripts, bindings: live, binds: bindings.length, again: bindings.filter((b) => b.again).length, violations, logs: w.logs.filter((l) => l[0] === "error").map((l) => l[1].map(String).join(" ")) };
}
exports.event = async (id, type, n) => {
  const el = byId.get(id);
  const Kind = { click: "MouseEvent", input: "InputEvent", keydown: "KeyboardEvent" }[type] || "CustomEvent";
  const e = new dom[Kind](NAMES[type] || type, { bubbles: true, cancelable: true, detail: n });
  el.dispatchEvent(e);
  await w.drain();
  return { frames: take(), prevented: e.defaultPrevented, stopped: e.cancelBubble };
};
exports.call = async (id, name, args) => {
  let event = null, error = null;
  const given = args.map((a) => (a && a.$event !== undefined ? (event = new dom.CustomEvent("custom", { bubbles: true, cancelable: true, detail: a.$event })) : a));
  try { byId.get(id)["call_" + name](...given); } catch (e) { error = String((e && e.stack) || e); }
  await w.drain();
  return { frames: take(), error, event: event && { prevented: event.defaultPrevented, stopped: event.cancelBubble } };
};
exports.context = async (n) => {
  // what a binding was given to talk to the server
  const b = bindings.filter((x) => x.live)[0];
  if (!b) return null;
  const got = [];
  let out;
  try {
    const { sendMessage, onMessage } = b.context;
    sendMessage({ type: "from-binding", n });
    const off = onMessage("to-binding", (m) => got.push(m.n));
    socket().receive(JSON.stringify({ type: "to-binding", n })); off();
    socket().receive(JSON.stringify({ type: "to-binding", n: n + 1 }));
    await w.drain();
    out = { got };
  } catch (e) { out = { error: String(e.stack || e) }; }
  return { ...out, frames: take() };
};
