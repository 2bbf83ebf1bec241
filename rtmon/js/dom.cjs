// A stand-in for the parts of a browser's DOM that the client uses. Properties of nodes are enumerable on the prototype, as in browsers.
"use strict";
const S = { attrs: Symbol("attrs"), kids: Symbol("kids"), parent: Symbol("parent"), listeners: Symbol("listeners"), style: Symbol("style"), value: Symbol("value"), checked: Symbol("checked"), doc: Symbol("doc"), data: Symbol("data"), flags: Symbol("flags") };

function enumerable(cls) {
  for (const k of Object.getOwnPropertyNames(cls.prototype)) {
    if (k === "constructor") continue;
    const d = Object.getOwnPropertyDescriptor(cls.prototype, k);
    d.enumerable = true;
    Object.defineProperty(cls.prototype, k, d);
  }
  return cls;
}

class EventTarget {
  constructor() { this[S.listeners] = []; }
  addEventListener(type, fn, opt) {
    const capture = typeof opt === "object" && opt ? !!opt.capture : !!opt;
    if (!this[S.listeners].some((l) => l.type === type && l.fn === fn && l.capture === capture))
      this[S.listeners].push({ type, fn, capture, once: !!(opt && opt.once) });
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === "object" && opt ? !!opt.capture : !!opt;
    const i = this[S.listeners].findIndex((l) => l.type === type && l.fn === fn && l.capture === capture);
    if (i >= 0) this[S.listeners].splice(i, 1);
  }
  dispatchEvent(e) {
    const path = [];
    for (let n = this; n; n = n[S.parent]) path.push(n);
    e[S.data].target = this;
    const fire = (n, phase) => {
      e[S.data].currentTarget = n;
      e[S.data].eventPhase = phase;
      for (const l of [...(n[S.listeners] || [])]) {
        if (l.type !== e.type || (phase === 1 && !l.capture) || (phase === 3 && l.capture)) continue;
        if (l.once) n.removeEventListener(l.type, l.fn, l.capture);
        if (typeof l.fn === "function") l.fn.call(n, e); else l.fn.handleEvent(e);
        if (e[S.flags].immediate) return;
      }
    };
    for (const n of path.slice(1).reverse()) if (!e[S.flags].stopped) fire(n, 1);
    if (!e[S.flags].stopped) fire(this, 2);
    if (e.bubbles) for (const n of path.slice(1)) if (!e[S.flags].stopped) fire(n, 3);
    e[S.data].currentTarget = null;
    e[S.data].eventPhase = 0;
    return !e.defaultPrevented;
  }
}

class Event {
  constructor(type, init = {}) {
    this[S.data] = { type, target: null, currentTarget: null, eventPhase: 0, bubbles: !!init.bubbles, cancelable: !!init.cancelable, defaultPrevented: false, timeStamp: init.timeStamp || 0, isTrusted: true, composed: false, view: init.view };
    this[S.flags] = { stopped: false, immediate: false };
  }
  get type() { return this[S.data].type; }
  get target() { return this[S.data].target; }
  get srcElement() { return this[S.data].target; }
  get currentTarget() { return this[S.data].currentTarget; }
  get eventPhase() { return this[S.data].eventPhase; }
  get bubbles() { return this[S.data].bubbles; }
  get cancelable() { return this[S.data].cancelable; }
  get defaultPrevented() { return this[S.data].defaultPrevented; }
  get timeStamp() { return this[S.data].timeStamp; }
  get isTrusted() { return true; }
  get composed() { return false; }
  get view() { return this[S.data].view; }
  get returnValue() { return !this.defaultPrevented; }
  get cancelBubble() { return this[S.flags].stopped; }
  get NONE() { return 0; }
  get BUBBLING_PHASE() { return 3; }
  preventDefault() { if (this.cancelable) this[S.data].defaultPrevented = true; }
  stopPropagation() { this[S.flags].stopped = true; }
  stopImmediatePropagation() { this[S.flags].stopped = this[S.flags].immediate = true; }
  composedPath() { const out = []; for (let n = this.currentTarget; n; n = n[S.parent]) out.push(n); return out; }
}
enumerable(Event);
const eventKinds = {};
function eventKind(name, fields) {
  const cls = { [name]: class extends Event {
    constructor(type, init = {}) { super(type, init); for (const f of fields) this[S.data][f] = init[f]; }
  } }[name];
  for (const f of fields) Object.defineProperty(cls.prototype, f, { enumerable: true, configurable: true, get() { return this[S.data][f]; } });
  eventKinds[name] = cls;
  return cls;
}
eventKind("UIEvent", ["detail"]);
eventKind("MouseEvent", ["detail", "clientX", "clientY", "button", "buttons", "ctrlKey", "shiftKey", "relatedTarget"]);
eventKind("KeyboardEvent", ["detail", "key", "code", "repeat", "ctrlKey"]);
eventKind("InputEvent", ["detail", "data", "inputType", "isComposing"]);
eventKind("FocusEvent", ["detail", "relatedTarget"]);
eventKind("CustomEvent", ["detail"]);

class NodeList {
  constructor(list) { list.forEach((x, i) => (this[i] = x)); Object.defineProperty(this, "length", { value: list.length }); }
  *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this[i]; }
  item(i) { return this[i] || null; }
  forEach(f) { [...this].forEach(f); }
}

class Node extends EventTarget {
  constructor(doc) { super(); this[S.kids] = []; this[S.parent] = null; this[S.doc] = doc || null; }
  get parentNode() { return this[S.parent]; }
  get parentElement() { return this[S.parent] instanceof Element ? this[S.parent] : null; }
  get ownerDocument() { return this[S.doc]; }
  get childNodes() { return new NodeList(this[S.kids]); }
  get firstChild() { return this[S.kids][0] || null; }
  get lastChild() { return this[S.kids][this[S.kids].length - 1] || null; }
  get nextSibling() { const p = this[S.parent]; return p ? p[S.kids][p[S.kids].indexOf(this) + 1] || null : null; }
  get previousSibling() { const p = this[S.parent]; return p ? p[S.kids][p[S.kids].indexOf(this) - 1] || null : null; }
  get isConnected() { let n = this; while (n[S.parent]) n = n[S.parent]; return n instanceof Document; }
  get textContent() { return this[S.kids].map((k) => k.textContent).join(""); }
  set textContent(v) { for (const k of [...this[S.kids]]) this.removeChild(k); if (v !== "") this.appendChild(new Text(v, this[S.doc])); }
  get baseURI() { return "http://stand.in/"; }
  getRootNode() { let n = this; while (n[S.parent]) n = n[S.parent]; return n; }
  hasChildNodes() { return this[S.kids].length > 0; }
  contains(n) { for (; n; n = n[S.parent]) if (n === this) return true; return false; }
  appendChild(n) { return this.insertBefore(n, null); }
  insertBefore(n, ref) {
    if (n.contains(this)) throw new Error("HierarchyRequestError");
    if (ref && ref[S.parent] !== this) throw new Error("NotFoundError");
    if (ref === n) ref = n.nextSibling;
    if (n[S.parent]) n[S.parent].removeChild(n);
    this[S.kids].splice(ref ? this[S.kids].indexOf(ref) : this[S.kids].length, 0, n);
    n[S.parent] = this;
    if (this.isConnected) { const come = []; if (n[S.doc]?.defaultView) walk(n, (x) => { if (x.connectedCallback) come.push(x); }); for (const x of come) x.connectedCallback(); }
    return n;
  }
  removeChild(n) {
    if (n[S.parent] !== this) throw new Error("NotFoundError");
    const was = this.isConnected;
    this[S.kids].splice(this[S.kids].indexOf(n), 1);
    n[S.parent] = null;
    if (was) { const gone = []; walk(n, (x) => { if (x.disconnectedCallback) gone.push(x); }); for (const x of gone) x.disconnectedCallback(); }
    return n;
  }
  replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
  remove() { if (this[S.parent]) this[S.parent].removeChild(this); }
  append(...xs) { for (const x of xs) this.appendChild(typeof x === "string" ? new Text(x, this[S.doc]) : x); }
  replaceChildren(...xs) { for (const k of [...this[S.kids]]) this.removeChild(k); this.append(...xs); }
}
enumerable(Node);
for (const [k, v] of Object.entries({ ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_NODE: 9 })) Object.defineProperty(Node.prototype, k, { value: v, enumerable: true });
function walk(n, f) { f(n); for (const k of [...n[S.kids]]) walk(k, f); }

class Text extends Node {
  constructor(v = "", doc) { super(doc); this[S.data] = String(v); }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get nodeValue() { return this[S.data]; }
  set nodeValue(v) { this[S.data] = String(v); }
  get data() { return this[S.data]; }
  set data(v) { this[S.data] = String(v); }
  get textContent() { return this[S.data]; }
  set textContent(v) { this[S.data] = String(v); }
  get wholeText() { return this[S.data]; }
}
enumerable(Text);

class CSSStyleDeclaration {
  constructor() { Object.defineProperty(this, S.data, { value: new Map() }); return new Proxy(this, { set: (t, k, v) => { if (k === "cssText" || typeof k === "symbol") t[k] = v; else t.setProperty(k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()), v); return true; } }); }
  setProperty(k, v) { if (v === "" || v == null) this.removeProperty(k); else { this[S.data].set(k, String(v)); Object.defineProperty(this, k, { value: String(v), enumerable: true, configurable: true, writable: true }); } }
  removeProperty(k) { this[S.data].delete(k); delete this[k]; }
  getPropertyValue(k) { return this[S.data].get(k) || ""; }
  get cssText() { return [...this[S.data]].map(([k, v]) => `${k}: ${v};`).join(" "); }
  set cssText(s) { for (const k of [...this[S.data].keys()]) this.removeProperty(k); for (const d of String(s).split(";")) { const i = d.indexOf(":"); if (i > 0) this.setProperty(d.slice(0, i).trim(), d.slice(i + 1).trim()); } }
  get length() { return this[S.data].size; }
  *[Symbol.iterator]() { yield* this[S.data].keys(); }
}
class CSSStyleSheet {}
class DOMStringMap {}
class File { constructor(name, size, type) { Object.assign(this[S.data] = {}, { name, size, type, lastModified: 5 }); } get name() { return this[S.data].name; } get size() { return this[S.data].size; } get type() { return this[S.data].type; } get lastModified() { return 5; } }
enumerable(File);
class FileList extends NodeList {}
class HTMLCollection extends NodeList {}

const EVENTS = ["click", "input", "change", "keydown", "keyup", "keypress", "focus", "blur", "submit", "scroll", "mousemove", "mouseenter", "mouseleave", "load", "error", "dblclick", "mousedown", "mouseup", "drop", "dragover"];
const REFLECT = { id: "id", title: "title", lang: "lang", className: "class", htmlFor: "for", tabIndex: "tabindex" };

class Element extends Node {
  constructor(tag, doc) { super(doc); this[S.attrs] = new Map(); Object.defineProperty(this, "localName", { value: String(tag).toLowerCase(), enumerable: true }); }
  get nodeType() { return 1; }
  get nodeName() { return this.localName.toUpperCase(); }
  get tagName() { return this.localName.toUpperCase(); }
  get children() { return new HTMLCollection(this[S.kids].filter((k) => k instanceof Element)); }
  get firstElementChild() { return this[S.kids].find((k) => k instanceof Element) || null; }
  get attributes() { return new NodeList([...this[S.attrs]].map(([name, value]) => ({ name, value }))); }
  setAttribute(k, v) { k = String(k).toLowerCase(); this[S.attrs].set(k, String(v)); if (k === "style") this.style.cssText = v; }
  getAttribute(k) { k = String(k).toLowerCase(); return this[S.attrs].has(k) ? this[S.attrs].get(k) : null; }
  hasAttribute(k) { return this[S.attrs].has(String(k).toLowerCase()); }
  removeAttribute(k) { k = String(k).toLowerCase(); this[S.attrs].delete(k); if (k === "style") this.style.cssText = ""; }
  toggleAttribute(k, on) { if (on) this.setAttribute(k, ""); else this.removeAttribute(k); }
  getAttributeNames() { return [...this[S.attrs].keys()]; }
  matches(sel) { return sel.split(",").some((s) => { s = s.trim(); return s[0] === "#" ? this.id === s.slice(1) : s[0] === "." ? this.className.split(" ").includes(s.slice(1)) : s[0] === "[" ? this.hasAttribute(s.slice(1, -1).split("=")[0]) : s === "*" || s.toLowerCase() === this.localName; }); }
  closest(sel) { for (let n = this; n instanceof Element; n = n[S.parent]) if (n.matches(sel)) return n; return null; }
  querySelectorAll(sel) { const out = []; for (const k of this[S.kids]) walk(k, (x) => x instanceof Element && x.matches(sel) && out.push(x)); return new NodeList(out); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  get style() { return this[S.style] || (this[S.style] = new CSSStyleDeclaration()); }
  set style(v) { this.style.cssText = v; }
  get dataset() { const d = new DOMStringMap(); for (const [k, v] of this[S.attrs]) if (k.startsWith("data-")) d[k.slice(5).replace(/-([a-z])/g, (_, c) => c.toUpperCase())] = v; return d; }
  get innerHTML() { return "..."; }
  get outerHTML() { return "..."; }
  get offsetWidth() { return 1; }
  focus() {}
  blur() {}
}
class HTMLElement extends Element {
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", v); }
}
for (const [prop, attr] of Object.entries(REFLECT))
  Object.defineProperty(HTMLElement.prototype, prop, { enumerable: true, configurable: true, get() { return this.getAttribute(attr) || ""; }, set(v) { this.setAttribute(attr, v); } });
for (const e of EVENTS) Object.defineProperty(HTMLElement.prototype, "on" + e, { value: null, enumerable: true, writable: true });
for (const c of [EventTarget, Element, HTMLElement]) enumerable(c);

const flag = (cls, ...names) => { for (const n of names) Object.defineProperty(cls.prototype, n, { enumerable: true, configurable: true, get() { return this.hasAttribute(n); }, set(v) { this.toggleAttribute(n, v); } }); };
const reflect = (cls, ...names) => { for (const n of names) Object.defineProperty(cls.prototype, n, { enumerable: true, configurable: true, get() { return this.getAttribute(n) || ""; }, set(v) { this.setAttribute(n, v); } }); };
const formOf = (el) => el.closest("form");
// tells a monitor what the page writes into a field
const written = (el, old) => { const d = el[S.doc]; if (d && d.onWrite) d.onWrite(el, old); };

class HTMLInputElement extends HTMLElement {
  get value() { return this[S.value] !== undefined ? this[S.value] : this.getAttribute("value") || ""; }
  set value(v) { if (this.type === "file") { if (v !== "") throw new Error("InvalidStateError"); return; } const old = this.value; this[S.value] = v == null ? "" : String(v); written(this, old); }
  get defaultValue() { return this.getAttribute("value") || ""; }
  set defaultValue(v) { this.setAttribute("value", v); }
  get checked() { return this[S.checked] !== undefined ? this[S.checked] : this.hasAttribute("checked"); }
  set checked(v) { this[S.checked] = !!v; }
  get form() { return formOf(this); }
  get files() { return this.type === "file" ? this[S.data] || (this[S.data] = new FileList([])) : null; }
  get type() { return this.getAttribute("type") || "text"; }
  set type(v) { this.setAttribute("type", v); }
  get selectionStart() { return this.value.length; }
}
enumerable(HTMLInputElement); flag(HTMLInputElement, "disabled", "required"); reflect(HTMLInputElement, "name", "placeholder");
class HTMLTextAreaElement extends HTMLElement {
  get value() { return this[S.value] !== undefined ? this[S.value] : this.textContent; }
  set value(v) { const old = this.value; this[S.value] = v == null ? "" : String(v); written(this, old); }
  get type() { return "textarea"; }
  get form() { return formOf(this); }
}
enumerable(HTMLTextAreaElement); flag(HTMLTextAreaElement, "disabled"); reflect(HTMLTextAreaElement, "name");
class HTMLOptionElement extends HTMLElement {
  get value() { return this.hasAttribute("value") ? this.getAttribute("value") : this.textContent; }
  set value(v) { this.setAttribute("value", v); }
  get selected() { return this[S.checked] !== undefined ? this[S.checked] : this.hasAttribute("selected"); }
  set selected(v) { this[S.checked] = !!v; }
}
enumerable(HTMLOptionElement);
class HTMLSelectElement extends HTMLElement {
  get options() { return this.querySelectorAll("option"); }
  get multiple() { return this.hasAttribute("multiple"); }
  set multiple(v) { this.toggleAttribute("multiple", v); }
  get selectedOptions() { const o = [...this.options], s = o.filter((x) => x.selected); return new HTMLCollection(this.multiple ? s : s.length ? s.slice(-1) : o.slice(0, 1)); }
  get value() { return this[S.value] === null ? "" : this.selectedOptions[0] ? this.selectedOptions[0].value : ""; }
  set value(v) { const old = this.value; this[S.value] = undefined; let hit = false; for (const o of this.options) { o.selected = !hit && o.value === String(v); hit = hit || o.selected; } if (!hit) this[S.value] = null; written(this, old); }
  get type() { return this.multiple ? "select-multiple" : "select-one"; }
  get form() { return formOf(this); }
}
enumerable(HTMLSelectElement); flag(HTMLSelectElement, "disabled"); reflect(HTMLSelectElement, "name");
class HTMLFormElement extends HTMLElement {
  get elements() { return this.querySelectorAll("input,select,textarea,button"); }
}
enumerable(HTMLFormElement); reflect(HTMLFormElement, "name");
class HTMLButtonElement extends HTMLElement { get value() { return this.getAttribute("value") || ""; } set value(v) { this.setAttribute("value", v); } get type() { return this.getAttribute("type") || "submit"; } set type(v) { this.setAttribute("type", v); } get form() { return formOf(this); } }
enumerable(HTMLButtonElement); flag(HTMLButtonElement, "disabled"); reflect(HTMLButtonElement, "name");
class HTMLScriptElement extends HTMLElement {
  connectedCallback() { if (this[S.data]) return; this[S.data] = true; this[S.doc].scripts.push({ src: this.getAttribute("src"), text: this.textContent, attrs: Object.fromEntries(this[S.attrs]) }); }
}
class HTMLMediaElement extends HTMLElement {}
const TAGS = { input: HTMLInputElement, textarea: HTMLTextAreaElement, select: HTMLSelectElement, option: HTMLOptionElement, form: HTMLFormElement, button: HTMLButtonElement, script: HTMLScriptElement };

class Document extends Node {
  constructor() {
    super();
    this[S.doc] = null;
    Object.defineProperty(this, "scripts", { value: [], enumerable: false });
    this.documentElement = this.appendChild(this.createElement("html"));
    this.head = this.documentElement.appendChild(this.createElement("head"));
    this.body = this.documentElement.appendChild(this.createElement("body"));
    this.registry = new Map();
  }
  get nodeType() { return 9; }
  get nodeName() { return "#document"; }
  createElement(tag) {
    const own = this.registry && this.registry.get(tag);
    if (own) { making.push([tag, this]); try { return new own(); } finally { making.pop(); } }
    return new (TAGS[String(tag).toLowerCase()] || HTMLElement)(tag, this);
  }
  createElementNS(_, tag) { return this.createElement(tag); }
  createTextNode(v) { return new Text(v, this); }
  getElementById(id) { let hit = null; walk(this, (x) => { if (!hit && x instanceof Element && x.id === id) hit = x; }); return hit; }
  querySelectorAll(sel) { return this.documentElement.querySelectorAll(sel); }
  querySelector(sel) { return this.documentElement.querySelector(sel); }
}
enumerable(Document);
// custom elements are constructed without arguments
const making = [];
class CustomBase extends HTMLElement {
  constructor(tag, doc) { if (tag === undefined && making.length) [tag, doc] = making[making.length - 1]; super(tag || "custom", doc); }
}

Object.defineProperty(CustomBase, Symbol.hasInstance, { value(x) { return this === CustomBase ? x instanceof HTMLElement : Function.prototype[Symbol.hasInstance].call(this, x); } });

module.exports = { S, EventTarget, Event, ...eventKinds, Node, Text, Element, HTMLElement: CustomBase, HTMLInputElement, HTMLTextAreaElement, HTMLSelectElement, HTMLOptionElement, HTMLFormElement, HTMLButtonElement, HTMLScriptElement, HTMLMediaElement, NodeList, HTMLCollection, FileList, File, DOMStringMap, CSSStyleDeclaration, CSSStyleSheet, Document, walk, eventKinds };
