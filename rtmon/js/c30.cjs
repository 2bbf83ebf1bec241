"use strict";
const { World, dom } = require("./world.cjs");
const { Rng, Result } = require("./common.cjs");

const KEYS = ["a", "b", "key", "detail", "x1", "_p", "camelCase", "é", "type", "name", "value", "checked", "files", "dataset", "A", "MAX_LEN", "__k", "__proto", "size", "length", "view", "0", "constructor", "toString", "target", "isTrusted", "Mixed_Case"];
const ignoredKey = (k) => k.startsWith("__") || /^[A-Z_]+$/.test(k) || k === "view" || k === "size" || k === "length";
const THROWS = () => { throw new Error("getter"); };

class Gen {
  constructor(rng, w, res) { Object.assign(this, { rng, w, res, all: [], budget: rng.range(5, 60) }); }
  primitive() {
    const r = this.rng;
    return r.pick([0, 1, -2.5, 1e300, "", "s", "é\u2028</script>", "\ud800", true, false, NaN, "x".repeat(r.int(50))]);
  }
  odd() {
    const { rng: r, w } = this;
    this.res.add("odd_values");
    return r.pick([null, undefined, () => 1, Symbol("s"), 10n, w.window, w.document, new dom.CSSStyleSheet(), class A {}, new Map([["a", 1]]), new Set([1]), new Date(0), /x/g, new Error("e"), Promise.resolve(1), new WeakMap(), new Proxy(() => 1, {})]);
  }
  value(depth) {
    const r = this.rng, x = r.random();
    if (x < 0.4 || this.budget <= 0) return this.primitive();
    if (x < 0.52) return this.odd();
    if (x < 0.62 && this.all.length) { this.res.add("shared"); return r.pick(this.all); }
    return this.object(depth + 1);
  }
  object(depth) {
    const r = this.rng, kind = r.random();
    this.budget--;
    if (kind < 0.15) {
      const a = []; this.all.push(a);
      for (let i = r.int(5); i > 0; i--) a.push(this.value(depth));
      if (r.chance(0.1)) { this.res.add("throwing"); Object.defineProperty(a, r.int(a.length + 1), { get: THROWS, enumerable: true }); }
      return a;
    }
    if (kind < 0.19) return r.pick([new Uint8Array([1, 2, 3]), new Float64Array(2), new BigInt64Array(2), new dom.NodeList([{ a: 1 }, { a: 2 }]), new dom.FileList([new dom.File("f", 3, "t")]), "str".match(/s/), new String("boxed")]);
    let o;
    if (kind < 0.25) o = Object.create(null);
    else if (kind < 0.4) {
      // fields come from the class
      const proto = {};
      for (let i = r.int(4); i > 0; i--) this.field(proto, depth);
      o = Object.create(proto);
    } else o = {};
    this.all.push(o);
    for (let i = r.int(6); i > 0; i--) this.field(o, depth);
    return o;
  }
  field(o, depth) {
    const r = this.rng, k = r.pick(KEYS), x = r.random();
    const opt = { enumerable: r.chance(0.92), configurable: true };
    if (x < 0.06) { this.res.add("throwing"); Object.defineProperty(o, k, { ...opt, get: THROWS }); return; }
    const v = this.value(depth);
    if (x < 0.12) { Object.defineProperty(o, k, { ...opt, get: () => v }); return; }
    Object.defineProperty(o, k, { ...opt, value: v, writable: true });
  }
}

// ---- what must be there at least
const read = (x, k) => { try { return x[k]; } catch { return undefined; } };
function dropped(w, v) {
  return v === null || v === undefined || ["function", "symbol", "bigint"].includes(typeof v) || v === w.window || v instanceof dom.Document || v instanceof dom.CSSStyleSheet;
}
const arrayLike = (x) => Array.isArray(x) || (typeof read(x, "length") === "number" && typeof read(x, Symbol.iterator) === "function" && !/Map/.test(Object.prototype.toString.call(x)));

function compare(w, res, x, got, left, path, where) {
  // got is what became of x
  if (typeof x !== "object" || x === null) {
    res.add("fields");
    if (!Object.is(got, x)) return `${where}: ${String(x)} became ${String(got)}`;
    return null;
  }
  if (typeof got !== "object" || got === null) return `${where}: an object became ${String(got)}`;
  const inner = [...path, x];
  const usable = (v) => typeof v !== "object" || (left > 1 && !inner.includes(v));
  if (left !== Infinity && arrayLike(x) && (path.length || Array.isArray(x))) {
    if (!Array.isArray(got)) return `${where}: no array but ${JSON.stringify(got)}`;
    const items = [];
    for (let i = 0; i < x.length; i++) { const v = read(x, i); if (!dropped(w, v) && usable(v)) items.push(v); }
    if (got.length !== items.length) return `${where}: ${got.length} items instead of ${items.length}`;
    for (let i = 0; i < items.length; i++) { const d = compare(w, res, items[i], got[i], left - 1, inner, `${where}[${i}]`); if (d) return d; }
    return null;
  }
  if (Array.isArray(got)) return `${where}: an object became an array`;
  const seen = new Set();
  for (const k in x) {
    const v = read(x, k);
    if (ignoredKey(k) || dropped(w, v) || !usable(v)) continue;
    seen.add(k);
    if (!Object.prototype.hasOwnProperty.call(got, k)) return `${where}: ${k} = ${typeof v === "object" ? "{...}" : String(v)} is missing`;
    const d = compare(w, res, v, got[k], left - 1, inner, `${where}.${k}`);
    if (d) return d;
  }
  for (const k of Object.keys(got)) {
    if (seen.has(k)) continue;
    let known; try { known = k in x; } catch { known = false; }
    if (!known) return `${where}: ${k} is not there`;
    if (ignoredKey(k)) return `${where}: ${k} should be left out`;
    if (dropped(w, read(x, k))) return `${where}: ${k} should be left out`;
  }
  return null;
}
// ---- what may be there at most
function plain(res, v, where, stack, max) {
  res.add("nodes");
  if (v === null || typeof v === "string" || typeof v === "boolean" || typeof v === "number") return null;
  if (typeof v !== "object") return `${where} is a ${typeof v}`;
  if (stack.includes(v)) return `${where} is a cycle`;
  if (stack.length >= max) return `${where} is deeper than ${max}`;
  const proto = Object.getPrototypeOf(v);
  if (Array.isArray(v)) { for (let i = 0; i < v.length; i++) { const d = plain(res, v[i], `${where}[${i}]`, [...stack, v], max); if (d) return d; } return null; }
  if (proto !== null && Object.getPrototypeOf(proto) !== null) return `${where} is a ${proto.constructor && proto.constructor.name}`;
  for (const k of Reflect.ownKeys(v)) {
    if (k === "__stop__") return `${where} holds an internal mark`;
    const d = Object.getOwnPropertyDescriptor(v, k);
    if (!("value" in d)) return `${where}.${String(k)} is computed`;
    const e = plain(res, d.value, `${where}.${String(k)}`, [...stack, v], max);
    if (e) return e;
  }
  return null;
}
function judge(w, res, input, out, max, extra) {
  const p = plain(res, out, "result", [], max + extra);
  if (p) res.bad("not-plain", p);
  try { JSON.parse(JSON.stringify(out)); } catch (e) { res.bad("not-json", e.message); }
}

exports.run = async (seed) => {
  const rng = new Rng(seed), res = new Result();
  let selecting = null;
  const w = new World({ selection: () => selecting && selecting() });
  const m = w.load("event-to-object");
  const convert = m.default || m;
  const shape = [];
  for (let i = 0; i < 12 && !res.violations.length; i++) {
    const gen = new Gen(rng, w, res);
    let x = gen.object(0);
    for (let t = 0; t < 20 && arrayLike(x) && !Array.isArray(x); t++) x = gen.object(0);
    if (arrayLike(x) && !Array.isArray(x)) continue;
    if (Array.isArray(x)) res.add("lists");
    if (rng.chance(0.1)) {
      // a chain deeper than any limit, perhaps an endless one
      const k = rng.pick(["next", "value", "files", "dataset", "a"]), endless = rng.chance(0.5), hidden = rng.chance(0.5);
      const link = (n) => { const o = { n }; if (endless || n < 40) Object.defineProperty(o, k, { get: () => link(n + 1), enumerable: !hidden, configurable: true }); return o; };
      x = { chain: link(0), plain: 1 };
      res.add("chains");
    }
    if (rng.chance(0.1)) { const ring = []; for (let j = 0; j < rng.range(2, 6); j++) ring.push({ j }); for (const o of ring) for (const [j, q] of ring.entries()) o["r" + j] = q; if (Array.isArray(x)) x.push(ring[0]); else x.ring = ring[0]; res.add("rings"); }
    const max = rng.chance(0.5) ? undefined : rng.range(1, 13), limit = max || 10;
    const before = Object.getOwnPropertyNames(x).join();
    let out;
    try { out = max === undefined ? convert(x) : convert(x, max); } catch (e) { res.bad("throws", e.stack || e); break; }
    res.add("objects");
    judge(w, res, x, out, limit, 0);
    if (res.violations.length) break;
    const d = compare(w, res, x, out, limit, [], "result");
    if (d) res.bad("lost", `${d} (depth ${limit})`);
    if (Object.getOwnPropertyNames(x).join() !== before) res.bad("changed", "the object was changed");
    shape.push(Object.keys(out).length);
  }
  // ---- events of a page
  for (let i = 0; i < 6 && !res.violations.length; i++) {
    const doc = w.document, make = (t, a = {}) => { const e = doc.createElement(t); for (const k in a) e.setAttribute(k, a[k]); return e; };
    const form = make("form", { name: "f", id: "form1" });
    const outer = doc.body.appendChild(make("div", { class: "c", "data-outer": "o" }));
    outer.appendChild(form);
    const controls = [];
    for (let j = rng.range(1, 6); j > 0; j--) {
      const tag = rng.pick(["input", "input", "textarea", "select"]), a = {};
      const name = rng.pick(["user", "n" + j, "n" + j, "EMAIL", "size", "__hidden", ""]);
      if (name && !controls.some((c) => c.name === name)) a.name = name;
      let c;
      if (tag === "select") {
        c = make("select", a);
        for (const v of ["one", "two"]) c.appendChild(make("option", { value: v })).appendChild(doc.createTextNode(v));
        c.value = rng.pick(["one", "two"]);
      } else {
        const type = tag === "input" ? rng.pick(["text", "checkbox", "radio", "number", "file", "password"]) : "";
        c = make(tag, { ...a, ...(type ? { type } : {}) });
        if (type === "checkbox" || type === "radio") c.checked = rng.chance(0.5);
        else if (type === "file") c[dom.S.data] = new dom.FileList([...Array(rng.int(3)).keys()].map((n) => new dom.File("file" + n, n, "text/x")));
        else c.value = rng.pick(["", "typed", "é<"]);
      }
      if (rng.chance(0.3)) c.setAttribute("data-item-id", "i" + j);
      form.appendChild(c);
      if (rng.chance(0.2)) Object.defineProperty(c, rng.pick(["validity", "labels", "dataset", "willValidate"]), { get: THROWS, enumerable: rng.chance(0.5), configurable: true });
      controls.push(c);
    }
    const target = rng.pick([...controls, ...controls, form]);
    selecting = rng.pick([null, () => null, () => ({ type: "Caret", anchorNode: target, anchorOffset: 1, focusNode: target, focusOffset: 2, isCollapsed: true, rangeCount: 1, toString: () => "sel" }), () => ({ type: "None", anchorNode: null, anchorOffset: 0, focusNode: null, focusOffset: 0, isCollapsed: true, rangeCount: 0, toString: () => "" }), () => ({ get type() { throw new Error("selection"); } }), THROWS]);
    const kind = rng.pick(["Event", "MouseEvent", "InputEvent", "KeyboardEvent", "CustomEvent"]);
    const init = { bubbles: true, cancelable: rng.chance(0.5), detail: rng.pick([0, 3, "d"]), clientX: 5, key: "k", data: "d", view: w.window, relatedTarget: rng.chance(0.3) ? outer : null };
    const e = new dom[kind](rng.pick(["input", "click", "submit", "custom"]), init);
    const max = rng.chance(0.6) ? undefined : rng.range(1, 12), limit = max || 10;
    let out, at = rng.chance(0.5) ? target : outer;
    at.addEventListener(e.type, (ev) => { try { out = max === undefined ? convert(ev) : convert(ev, max); } catch (x) { res.bad("throws", `${kind} event: ${x.stack || x}`); } }, { once: true });
    target.dispatchEvent(e);
    res.add("events");
    if (!out) break;
    judge(w, res, e, out, limit, 3);
    const want = (cond, what) => { res.add("facts"); if (!cond) res.bad("lost", `${kind} on ${target.localName}: ${what} (depth ${limit}): ${JSON.stringify(out).slice(0, 1500)}`); };
    for (const k of ["type", "bubbles", "cancelable", "isTrusted", "timeStamp"]) want(out[k] === e[k], `${k} is ${out[k]}`);
    if (["MouseEvent", "InputEvent", "KeyboardEvent"].includes(kind)) want(out.detail === init.detail, "detail");
    if (kind === "MouseEvent") want(out.clientX === 5, "clientX");
    if (kind === "KeyboardEvent") want(out.key === "k", "key");
    want("selection" in out, "no selection");
    if (limit >= 2) {
      want(out.target && out.currentTarget, "no target");
      if (res.violations.length) break;
      want(out.currentTarget.localName === at.localName, "currentTarget is another element");
      const same = (got, c, deep) => {
        want(got && got.value === c.value, `value of ${c.localName} ${c.name}`);
        if (!got) return;
        want(got.type === c.type, "type");
        if (c.getAttribute("name")) want(got.name === c.name, "name");
        if (c.localName === "input") want(got.checked === c.checked, "checked");
        if (deep && c.type === "file") want(Array.isArray(got.files) && got.files.length === c.files.length && got.files.every((f, j) => f.name === "file" + j && f.type === "text/x"), "files");
        const broken = (() => { try { return !c.dataset; } catch { return true; } })();
        if (deep && !broken && c.hasAttribute("data-item-id")) want(got.dataset && got.dataset.itemId === c.getAttribute("data-item-id"), "dataset");
      };
      if (target !== form) { same(out.target, target, limit >= 4); res.add("inputs"); }
      else if (limit >= 6) {
        res.add("forms");
        want(Array.isArray(out.target.elements) && out.target.elements.length === controls.length, "elements");
        want(!("" in out.target), "a control without a name is held under an empty one");
        want(out.target.id === "form1", "id of the form");
        for (const [j, c] of controls.entries()) {
          if (out.target.elements) same(out.target.elements[j], c, true);
          if (c.getAttribute("name")) same(out.target[c.name], c, true);
        }
      }
    }
    outer.remove();
  }
  // ---- anything else
  for (const v of [null, undefined, 0, 5, "", "s", true, 3n, Symbol("x"), () => 1]) {
    try { convert(v); res.add("others"); } catch (e) { res.bad("throws", `${String(v)}: ${e.stack || e}`); }
  }
  res.nontrivial = shape.length > 3;
  res.sig = shape.join();
  return res;
};
