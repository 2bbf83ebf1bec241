"use strict";
const { World, dom } = require("./world.cjs");

let w, start, delivered, frames, writes, nodes, edits, marks, gone;
const socket = () => w.sockets[w.sockets.length - 1];
const now = () => w.now - start;

exports.open = async () => {
  w = new World();
  const m = w.load("@reactpy/client");
  const box = w.document.body.appendChild(w.document.createElement("div"));
  delivered = 0; frames = []; writes = []; edits = []; gone = []; nodes = new Map(); marks = new Map();
  w.onFrame = (f) => frames.push({ at: now(), frame: JSON.parse(f) });
  let quiet = false;
  w.document.onWrite = (el, old) => {
    if (quiet || el.value === old) return;
    writes.push({ at: now(), node: nodeOf(el), id: el.id, old, value: el.value, last: marks.get(el) ?? -1, delivered });
  };
  exports.write = (el, v) => { quiet = true; el.value = v; quiet = false; };
  m.mountReactPy({ mountElement: box, pathPrefix: "/_r/", componentPath: "c", reconnectInterval: 10 });
  await connect();
  start = w.now;
  return null;
};
async function connect() {
  for (let i = 0; i < 100 && !(socket() && socket().readyState === 0); i++) await w.advance(10);
  socket().accept();
  await w.drain();
}
const nodeOf = (el) => { if (!nodes.has(el)) nodes.set(el, nodes.size); return nodes.get(el); };

// what the user does: n numbers the edit and the events it causes
async function user({ id, op, ch, n, types }) {
  const el = w.document.getElementById(id);
  const done = { n, at: now(), ok: false, events: [] };
  edits.push(done);
  if (!el) return;
  Object.assign(done, { ok: true, node: nodeOf(el), tag: el.localName });
  for (const type of types) {
    if (type === "EDIT") {
      const old = el.value;
      let v = old;
      if (el.localName === "select") { const o = [...el.options]; if (o.length) v = o[(o.findIndex((x) => x.value === old) + 1 + (n % 2)) % o.length].value; }
      else v = op === "back" ? old.slice(0, -1) : op === "set" ? ch : old + ch;
      exports.write(el, v);
      done.value = v;
      marks.set(el, n);
      continue;
    }
    const Kind = /^key/.test(type) ? "KeyboardEvent" : type === "click" ? "MouseEvent" : type === "input" ? "InputEvent" : /blur|focus/.test(type) ? "FocusEvent" : "UIEvent";
    const e = new dom[Kind](type, { bubbles: true, cancelable: true, detail: n });
    el.dispatchEvent(e);
    done.events.push({ type, prevented: e.defaultPrevented, value: el.value ?? null });
    await w.drain();
  }
}
exports.step = async (until, actions) => {
  for (const a of actions) {
    if (a.at > now()) await w.advance(a.at - now());
    if (a.message) { socket().receive(a.message); delivered++; await w.drain(); for (const [el, i] of nodes) if (!el.isConnected && !el.gone) { el.gone = true; gone.push([i, now()]); } }
    else if (a.drop) { socket().drop(); await w.drain(); await connect(); }
    else await user(a);
  }
  if (until > now()) await w.advance(until - now());
  const out = { now: now(), frames, writes, edits, gone, errors: w.errors.map((e) => String(e.stack || e)) };
  frames = []; writes = []; edits = []; gone = [];
  return out;
};
exports.look = () => {
  const out = {};
  for (const el of w.document.querySelectorAll("input,select,textarea")) if (el.id) out[el.id] = { value: el.value, node: nodeOf(el), last: marks.get(el) ?? -1, tag: el.localName };
  return out;
};
