// A small stand-in for preact: keyed reconciliation, hooks, contexts, refs; renders in a microtask, effects after the next frame
// (or before the component renders again), as preact does. What an attribute does to the document follows React.
"use strict";
const { walk, S } = require("./dom.cjs");
const ENUMERATED = new Set(["contenteditable", "draggable", "spellcheck"]);

module.exports = function makePreact(world) {
  const doc = () => world.document;
  const Fragment = (p) => p.children;
  let current = null, index = 0, ids = 0;

  function createElement(type, props, ...children) {
    const p = {};
    let key, ref;
    for (const k in props || {}) if (k === "key") key = props.key; else if (k === "ref") ref = props.ref; else p[k] = props[k];
    if (children.length) p.children = children.length === 1 ? children[0] : children;
    return { type, props: p, key: key == null ? undefined : key, ref, isVNode: true };
  }
  const jsx = (type, props, key) => {
    const { ref, ...p } = props || {};
    return { type, props: p, key: key == null ? undefined : key, ref: ref, isVNode: true };
  };
  const cloneElement = (v, props, ...c) => { const { key, ref, ...p } = props || {}; return { ...v, props: { ...v.props, ...p, ...(c.length ? { children: c.length === 1 ? c[0] : c } : {}) }, key: key === undefined ? v.key : key, ref: ref === undefined ? v.ref : ref }; };

  // ---- contexts
  function createContext(dflt) {
    const ctx = { dflt };
    ctx.Provider = (p) => p.children;
    ctx.Provider.ctx = ctx;
    ctx.Consumer = (p) => { const f = Array.isArray(p.children) ? p.children[0] : p.children; return f(useContext(ctx)); };
    return ctx;
  }
  function provider(inst, ctx) { for (let i = inst.parent; i; i = i.parent) if (i.type && i.type.ctx === ctx) return i; return null; }

  // ---- hooks
  const slot = (make) => { const h = current.hooks; if (index >= h.length) h.push(make()); return h[index++]; };
  function useReducer(reduce, init, lazy) {
    const inst = current;
    const s = slot(() => { const x = { value: lazy ? lazy(init) : typeof init === "function" && !reduce.user ? init() : init, next: [] }; x.dispatch = (a) => { const v = x.reduce(x.pending !== undefined ? x.pending.v : x.value, a); if (!Object.is(v, x.pending ? x.pending.v : x.value)) { x.pending = { v }; enqueue(inst); } }; return x; });
    s.reduce = reduce;
    if (s.pending) { s.value = s.pending.v; s.pending = undefined; }
    return [s.value, s.dispatch];
  }
  const basic = (s, a) => (typeof a === "function" ? a(s) : a);
  const useState = (init) => useReducer(basic, init);
  const userReducer = (r, i, l) => { r.user = true; return useReducer(r, i, l); };
  const useMemo = (f, deps) => { const s = slot(() => ({})); if (!s.deps || changed(s.deps, deps)) { s.value = f(); s.deps = deps; } return s.value; };
  const useCallback = (f, deps) => useMemo(() => f, deps);
  const useRef = (v) => slot(() => ({ current: v }));
  const useId = () => slot(() => ({ id: "P" + ids++ })).id;
  const changed = (a, b) => !a || !b || a.length !== b.length || b.some((x, i) => !Object.is(x, a[i]));
  function effect(kind) {
    return (f, deps) => { const s = slot(() => ({ kind })); if (changed(s.deps, deps)) { s.next = f; s.deps = deps; current[kind].push(s); } };
  }
  const useEffect = effect("effects"), useLayoutEffect = effect("layoutEffects");
  const useImperativeHandle = (ref, make, deps) => useLayoutEffect(() => { if (typeof ref === "function") { ref(make()); return () => ref(null); } if (ref) { ref.current = make(); return () => (ref.current = null); } }, deps && deps.concat(ref));
  const useContext = (ctx) => { const p = provider(current, ctx); if (p) { p.subs.add(current); return p.vnode.props.value; } return ctx.dflt; };
  const useDebugValue = () => {};
  const useErrorBoundary = () => [undefined, () => {}];
  const runAll = (list) => {
    // as preact does: everything is cleaned up before anything runs again
    list = list.filter((s) => !s.gone);
    for (const s of list) if (s.cleanup) { const c = s.cleanup; s.cleanup = null; safely(c); }
    for (const s of list) if (s.next && !s.gone) { const f = s.next; s.next = null; const c = safely(f); if (typeof c === "function") s.cleanup = c; }
  };
  const safely = (f) => { try { return f(); } catch (e) { world.errors.push(e); } };
  const flushEffects = (inst) => { const list = inst.effects; inst.effects = []; runAll(list); };

  // ---- scheduling
  const dirty = new Set(), painted = new Set();
  let queued = false, frame = false;
  function enqueue(inst) {
    if (inst.gone) return;
    dirty.add(inst);
    if (!queued) { queued = true; Promise.resolve().then(() => { queued = false; work(); }); }
  }
  function depth(i) { let n = 0; for (; i; i = i.parent) n++; return n; }
  function work() {
    for (let n = 0; dirty.size; n++) {
      if (n > 1000) { dirty.clear(); world.errors.push(new Error("endless rendering")); return; }
      const inst = [...dirty].sort((a, b) => depth(a) - depth(b))[0];
      dirty.delete(inst);
      if (inst.gone) continue;
      const commit = [];
      renderComponent(inst, commit);
      const host = hostOf(inst.parent);
      if (host) place(host.dom, domsOf(host.children));
      finish(commit);
    }
  }
  function schedulePaint(inst) {
    painted.add(inst);
    if (frame) return;
    frame = true;
    world.window.requestAnimationFrame(() => world.window.setTimeout(() => { frame = false; const all = [...painted]; painted.clear(); for (const i of all) if (!i.gone) flushEffects(i); }, 0));
  }

  // ---- reconciliation
  const textLike = (c) => typeof c === "string" || typeof c === "number" || typeof c === "bigint";
  const normalize = (c) => (Array.isArray(c) ? c : [c]).map((x) => (x == null || typeof x === "boolean" || typeof x === "function" ? null : textLike(x) ? { type: "#text", text: String(x) } : Array.isArray(x) ? { type: Fragment, props: { children: x }, key: undefined } : x));
  const domsOf = (insts) => insts.flatMap((i) => (!i ? [] : i.dom ? [i.dom] : domsOf(i.children)));
  const hostOf = (i) => { while (i && !i.dom) i = i.parent; return i; };
  function place(dom, nodes) {
    let ref = dom.firstChild;
    for (const n of nodes) if (n === ref) ref = ref.nextSibling; else dom.insertBefore(n, ref);
  }
  function children(parent, vnodes, commit) {
    const old = parent.children, used = new Set(), out = [];
    const match = (v, i) => {
      const ok = (j) => j >= 0 && j < old.length && old[j] && !used.has(j) && old[j].type === v.type && old[j].key === v.key;
      for (let d = 0; d <= old.length + i; d++) { if (ok(i + d)) return i + d; if (ok(i - d)) return i - d; }
      return -1;
    };
    vnodes.forEach((v, i) => {
      if (!v) return out.push(null);
      const j = match(v, i);
      if (j >= 0) used.add(j);
      out.push(j >= 0 ? update(old[j], v, commit) : mount(parent, v, commit));
    });
    old.forEach((o, j) => { if (o && !used.has(j)) unmount(o, true); });
    parent.children = out;
  }
  function mount(parent, v, commit) {
    const inst = { type: v.type, key: v.key, vnode: v, parent, children: [], dom: null, hooks: [], effects: [], layoutEffects: [], subs: new Set() };
    if (v.type === "#text") inst.dom = doc().createTextNode(v.text);
    else if (typeof v.type === "string") {
      inst.dom = doc().createElement(v.type);
      host(inst, {}, commit);
    } else renderComponent(inst, commit);
    return inst;
  }
  function update(inst, v, commit) {
    const old = inst.vnode;
    inst.vnode = v;
    if (old === v && !dirty.has(inst)) return inst;
    if (v.type === "#text") { if (old.text !== v.text) inst.dom.nodeValue = v.text; }
    else if (typeof v.type === "string") host(inst, old.props, commit, old.ref);
    else if (v.type.compare && v.type.compare(old.props, v.props) && !dirty.has(inst)) return inst;
    else {
      if (v.type.ctx && !Object.is(old.props.value, v.props.value)) for (const s of inst.subs) enqueue(s);
      renderComponent(inst, commit);
    }
    return inst;
  }
  function host(inst, old, commit, oldRef) {
    const { dom, vnode } = inst, p = vnode.props;
    for (const k in old) if (!(k in p)) setProp(dom, k, undefined, old[k]);
    const late = [];
    for (const k in p) if (k === "children" || k === "dangerouslySetInnerHTML") continue; else if (k === "value" || k === "checked") late.push(k); else if (p[k] !== old[k]) setProp(dom, k, p[k], old[k]);
    children(inst, p.children === undefined ? [] : normalize(p.children), commit);
    place(dom, domsOf(inst.children));
    for (const k of late) if (k in dom) { if (p[k] !== undefined && dom[k] !== p[k]) dom[k] = p[k]; } else if (p[k] !== old[k]) setProp(dom, k, p[k], old[k]);
    if (oldRef !== vnode.ref) { if (oldRef) commit.push(() => setRef(oldRef, null)); if (vnode.ref) commit.push(() => !inst.gone && setRef(vnode.ref, dom)); }
  }
  const setRef = (ref, v) => safely(() => { if (typeof ref === "function") ref(v); else ref.current = v; });
  function renderComponent(inst, commit) {
    dirty.delete(inst);
    flushEffects(inst);
    const prev = [current, index];
    [current, index] = [inst, 0];
    let out;
    try {
      const T = inst.type;
      if (T.prototype && T.prototype.isComponent) {
        const c = inst.self || (inst.self = Object.assign(new T(inst.vnode.props), { inst }));
        c.props = inst.vnode.props;
        if (inst.nextState) { c.state = inst.nextState; inst.nextState = null; }
        out = c.render(c.props, c.state);
      } else out = (T.inner || T)(inst.vnode.props, T.forward ? inst.vnode.ref : undefined);
    } finally { [current, index] = prev; }
    children(inst, normalize(out), commit);
    commit.push(() => { if (inst.gone) return; const l = inst.layoutEffects; inst.layoutEffects = []; runAll(l); if (inst.effects.length) schedulePaint(inst); });
  }
  const finish = (commit) => { for (const f of commit) f(); };
  function unmount(inst, top) {
    inst.gone = true;
    dirty.delete(inst);
    if (inst.vnode.ref && inst.dom) setRef(inst.vnode.ref, null);
    for (const s of inst.hooks) { if (s.kind) { s.gone = true; if (s.cleanup) { const c = s.cleanup; s.cleanup = null; safely(c); } } }
    for (let i = inst.parent; i; i = i.parent) i.subs && i.subs.delete(inst);
    for (const c of inst.children) if (c) unmount(c, top && !inst.dom);
    if (top && inst.dom) inst.dom.remove();
  }

  // ---- what properties do to elements
  function setProp(dom, k, v, old) {
    if (k === "children" || k === "key" || k === "ref") return;
    if (k[0] === "o" && k[1] === "n" && (typeof v === "function" || typeof old === "function")) {
      const capture = /Capture$/.test(k) && k !== "onGotPointerCapture" && k !== "onLostPointerCapture";
      let name = capture ? k.slice(0, -7) : k;
      if (name === "onDoubleClick") name = "onDblClick";
      name = name.toLowerCase() in dom ? name.toLowerCase().slice(2) : name.slice(2);
      const id = name + capture;
      const l = dom[LISTENERS] || (Object.defineProperty(dom, LISTENERS, { value: {} }), dom[LISTENERS]);
      if (typeof v === "function") {
        if (!l[id]) { l[id] = { fn: null, proxy: (e) => l[id].fn && l[id].fn.call(dom, e) }; }
        if (!l[id].fn) dom.addEventListener(name, l[id].proxy, capture);
        l[id].fn = v;
      } else if (l[id] && l[id].fn) { dom.removeEventListener(name, l[id].proxy, capture); l[id].fn = null; }
      return;
    }
    if (typeof v === "function") return;
    if (k === "style") {
      if (typeof v === "string") { dom.style.cssText = v; return; }
      if (typeof old === "string") dom.style.cssText = "";
      for (const s in old || {}) if (!(v && s in v)) dom.style.removeProperty(s);
      for (const s in v || {}) if (!old || v[s] !== old[s]) { const x = v[s]; x == null || x === "" ? dom.style.removeProperty(s) : dom.style.setProperty(s, typeof x === "number" && !/^(opacity|zIndex|flex|order|lineHeight|--.*)$/.test(s) ? x + "px" : String(x)); }
      return;
    }
    if (k === "value" && "value" in dom && dom.localName !== "option" && dom.localName !== "button") { dom.value = v == null ? "" : v; return; }
    if (k === "checked" && "checked" in dom) { dom.checked = !!v; return; }
    const name = (k === "className" ? "class" : k === "htmlFor" ? "for" : k === "acceptCharset" ? "accept-charset" : k === "httpEquiv" ? "http-equiv" : k).toLowerCase();
    if (v == null || (v === false && !/^(aria|data)-/.test(name) && !ENUMERATED.has(name))) dom.removeAttribute(name);
    else dom.setAttribute(name, v === true && !/^(aria|data)-/.test(name) && !ENUMERATED.has(name) ? "" : v);
  }
  const LISTENERS = Symbol("listeners");

  const roots = new Map();
  function render(vnode, container) {
    let root = roots.get(container);
    const commit = [];
    if (!root) { root = { type: "#root", dom: container, parent: null, children: [], hooks: [], vnode: {}, subs: new Set() }; roots.set(container, root); while (container.firstChild) container.removeChild(container.firstChild); }
    children(root, vnode == null ? [] : normalize(vnode), commit);
    place(container, domsOf(root.children));
    finish(commit);
    if (vnode == null) roots.delete(container);
  }

  class Component { constructor(p) { this.props = p; this.state = {}; } setState(s) { const old = this.inst.nextState || this.state; this.inst.nextState = { ...old, ...(typeof s === "function" ? s(old, this.props) : s) }; enqueue(this.inst); } forceUpdate() { enqueue(this.inst); } }
  Component.prototype.isComponent = true;
  const shallow = (a, b) => { for (const k in a) if (!(k in b) || a[k] !== b[k]) return false; for (const k in b) if (!(k in a)) return false; return true; };
  const memo = (c, compare) => { const f = (p) => c(p); f.inner = c.inner || c; f.compare = compare || shallow; return f; };
  const forwardRef = (c) => { const f = (p) => c(p); f.inner = c; f.forward = true; return f; };
  const createRef = () => ({ current: null });
  const isValidElement = (v) => !!(v && v.isVNode);
  const toChildArray = (c) => (Array.isArray(c) ? c.flatMap(toChildArray) : c == null || typeof c === "boolean" ? [] : [c]);
  const hooks = { useState, useReducer: userReducer, useMemo, useCallback, useRef, useId, useEffect, useLayoutEffect, useImperativeHandle, useContext, useDebugValue, useErrorBoundary };
  const core = { createElement, h: createElement, Fragment, createContext, render, hydrate: render, cloneElement, Component, createRef, isValidElement, toChildArray, options: {} };
  const compat = { ...core, ...hooks, memo, forwardRef, PureComponent: Component, useInsertionEffect: useLayoutEffect, flushSync: (f) => f && f(), unmountComponentAtNode: (n) => render(null, n), startTransition: (f) => f(), version: "18" };
  compat.default = compat;
  const client = { createRoot: (n) => ({ render: (v) => render(v, n), unmount: () => render(null, n) }), hydrateRoot: (n, v) => { render(v, n); return client.createRoot(n); } };
  client.default = client;
  const runtime = { jsx, jsxs: jsx, jsxDEV: jsx, Fragment };
  return { preact: core, "preact/hooks": hooks, "preact/compat": compat, "preact/compat/client": client, "preact/jsx-runtime": runtime, "preact/jsx-dev-runtime": runtime, isDirty: () => dirty.size > 0 };
};
