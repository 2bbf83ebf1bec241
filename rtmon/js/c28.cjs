"use strict";
const { World, dom } = require("./world.cjs");
const { Rng, Result } = require("./common.cjs");

exports.run = async (seed) => {
  const rng = new Rng(seed), res = new Result();
  const mounted = rng.chance(0.5);
  const cfg = {
    interval: rng.pick([1, 10, 100, 750, 5000, 60000, 0]),
    maxInterval: rng.pick([1, 100, 1000, 60000, 60000, 10 ** 7]),
    maxRetries: rng.pick([0, 1, 2, 3, 5, 10, 150]),
    backoffMultiplier: rng.pick([1, 1.25, 1.25, 2, 10, 0.5]),
  };
  const w = new World({ location: { pathname: rng.pick(["/", "/a b", "/é/x"]), search: rng.pick(["", "?q=1", "?a=b&c=%20d"]), protocol: rng.pick(["http:", "https:"]) } });
  const given = { ...cfg };
  if (mounted) {
    const defaults = { interval: 750, maxInterval: 60000, maxRetries: 150, backoffMultiplier: 1.25 };
    for (const k in cfg) if (rng.chance(0.15)) { cfg[k] = defaults[k]; given[k] = undefined; }
  }
  const m = w.load("@reactpy/client");
  const box = w.document.body.appendChild(w.document.createElement("div"));

  // ---- what the server does with the n-th connection
  const fail = rng.pick([0, 0.3, 0.6, 0.9]);
  let down = 0;
  const live = () => w.sockets.filter((s) => s.readyState < 2);
  const frames = [], sent = [];
  w.onFrame = (data, s) => { frames.push({ n: tag(JSON.parse(data)), s: w.sockets.indexOf(s), at: w.now }); };
  const tag = (msg) => (mounted ? msg.data[0].detail : msg.n);
  const where = () => JSON.stringify([w.window.location.pathname, w.window.location.search]);
  w.onSocket = (s) => {
    res.add("connections");
    if (live().length > 1) res.bad("two-sockets", `${live().length} sockets are alive at once`);
    const u = new URL(s.url);
    const got = JSON.stringify([u.searchParams.get("path"), u.searchParams.get("qs") || ""]);
    if (got !== where() || u.searchParams.getAll("path").length !== 1 || u.searchParams.getAll("qs").length !== (w.window.location.search ? 1 : 0)) res.bad("stale-location", `connected with ${s.url} at ${where()}`);
    if (u.searchParams.get("keep") !== (mounted ? null : "1") || u.host !== "stand.in" || u.pathname !== "/_r/c") res.bad("wrong-url", s.url);
  };

  // ---- the client
  let send;
  const received = [], expectedIn = [];
  const subs = [];
  let client;
  if (mounted) {
    m.mountReactPy({ mountElement: box, pathPrefix: "/_r/", componentPath: "c", reconnectInterval: given.interval, reconnectMaxInterval: given.maxInterval, reconnectMaxRetries: given.maxRetries, reconnectBackoffMultiplier: given.backoffMultiplier });
    send = (n) => { const b = box.querySelector("button"); if (!b) return false; b.dispatchEvent(new dom.MouseEvent("click", { detail: n, bubbles: true })); return true; };
  } else {
    client = new m.ReactPyClient({ urls: { componentUrl: new URL("ws://stand.in/_r/c?keep=1"), jsModulesPath: "/m/" }, reconnectOptions: cfg, mountElement: box });
    send = (n) => { client.sendMessage({ type: "x", n }); return true; };
    if (rng.chance(0.5)) {
      const before = rng.int(3);
      for (let i = 0; i < before; i++) { const n = sent.length; sent.push({ n, at: w.now, open: false }); send(n); }
      await w.advance(rng.pick([0, 1000]));
      if (w.sockets.length) res.bad("early", "a connection was opened before anything handles messages");
    }
    const subscribe = () => {
      const type = rng.pick(["a", "b"]), id = subs.length;
      const off = client.onMessage(type, (msg) => received.push(`${id}:${msg.k}`));
      subs.push({ type, id, off, on: true });
    };
    subscribe(); if (rng.chance(0.5)) subscribe();
    exports.subscribe = subscribe;
  }
  await w.advance(20);
  if (w.sockets.length !== 1) { res.bad("not-connected", `${w.sockets.length} sockets at the start`); return res; }

  // ---- history
  let ever = false, tries = 0, delay = null, closedAt = 0, ended = false, known = 1, n = sent.length, k = 0;
  const first = Math.min(cfg.interval, cfg.maxInterval);
  delay = first;
  const send1 = () => { const open = live().some((s) => s.readyState === 1); if (send(n)) { sent.push({ n, at: w.now, open }); n++; res.add(open ? "sent_open" : "sent_closed"); } };
  const check = (what) => {
    // everything sent so far that could be delivered was, in order
    const got = frames.map((f) => f.n);
    const openNow = live().some((s) => s.readyState === 1);
    if (got.some((x, i) => x !== sent[i].n)) res.bad(new Set(got).size < got.length ? "message-twice" : "message-order", `${what}: sent ${sent.map((s) => s.n)}, delivered ${got}`);
    else if (openNow && got.length !== sent.length) res.bad("message-lost", `${what}: sent ${sent.length} messages, delivered ${got.length}`);
  };
  const root = () => JSON.stringify({ type: "layout-update", path: "", model: { tagName: "", children: [{ tagName: "button", eventHandlers: { onClick: { target: "t" } } }] } });
  for (let step = rng.range(3, 25); step > 0 && !res.violations.length; step--) {
    const s = w.sockets[w.sockets.length - 1];
    if (s.readyState === 0) {
      // connecting: it takes a while, then works or not
      for (let i = rng.int(3); i > 0; i--) { send1(); await w.advance(rng.int(50)); }
      await w.advance(rng.pick([0, 5, 3000]));
      if (rng.chance(fail)) {
        s.drop(); res.add("failures");
        closedAt = w.now;
        if (!ever) { ended = true; }
      } else {
        const before = frames.length, waiting = sent.length - before;
        s.accept(); ever = true; tries = 0; delay = first; res.add("opens"); res.add("flushed", waiting);
        await w.drain();
        check("after opening");
        if (mounted) { s.receive(root()); await w.advance(50); }
        continue;
      }
    } else if (s.readyState === 1) {
      for (let i = rng.int(4); i > 0; i--) { send1(); if (rng.chance(0.5)) await w.advance(rng.int(1000)); }
      check("while open");
      if (!mounted) {
        for (let i = rng.int(4); i > 0; i--) {
          const type = rng.pick(["a", "a", "b", "none"]);
          k++;
          for (const x of subs) if (x.on && x.type === type) expectedIn.push(`${x.id}:${k}`);
          s.receive(JSON.stringify(type === "none" ? rng.pick([{ type: "zzz", k }, { k }]) : { type, k }));
          res.add("received");
          await w.drain();
          if (JSON.stringify(received) !== JSON.stringify(expectedIn)) res.bad("dispatch", `received ${received.slice(-6)}, expected ${expectedIn.slice(-6)}`);
          if (rng.chance(0.2)) { const x = rng.pick(subs); x.off(); x.on = false; } else if (rng.chance(0.2)) exports.subscribe();
        }
      }
      if (rng.chance(0.4)) { s.readyState = 2; for (let i = rng.int(3); i > 0; i--) send1(); await w.advance(rng.int(100)); }
      s.drop(rng.pick([1000, 1006])); res.add("drops");
      closedAt = w.now;
    }
    // closed: when does it come back?
    known = w.sockets.length;
    if (rng.chance(0.3)) Object.assign(w.window.location, { pathname: rng.pick(["/", "/p", "/q q"]), search: rng.pick(["", "?z=1"]) });
    if (ended) {
      await w.advance(10 ** 7);
      if (w.sockets.length - known > cfg.maxRetries) res.bad("too-many-tries", `${w.sockets.length - known} tries, though at most ${cfg.maxRetries}`);
      break;
    }
    if (tries >= cfg.maxRetries) {
      await w.advance(10 ** 8);
      res.add("exhausted");
      if (w.sockets.length !== known) res.bad("too-many-tries", `tried again after ${cfg.maxRetries} tries`);
      for (let i = rng.int(3); i > 0; i--) send1();
      break;
    }
    const early = Math.max(0, delay - 1.5);
    for (let i = rng.int(3); i > 0; i--) send1();
    if (delay > 2) await w.advance(early);
    if (w.sockets.length !== known) { res.bad("too-early", `try ${tries + 1} came before ${delay} ms (${JSON.stringify(cfg)})`); break; }
    await w.advance(3 + delay - (delay > 2 ? early : 0));
    if (w.sockets.length !== known + 1) { res.bad(w.sockets.length > known ? "too-many-tries" : "no-retry", `${w.sockets.length - known} tries after ${w.now - closedAt} ms, expected one after ${delay} ms (try ${tries + 1}, ${JSON.stringify(cfg)})`); break; }
    tries++;
    res.add("retries");
    delay = Math.min(delay * cfg.backoffMultiplier, cfg.maxInterval);
    if (delay === cfg.maxInterval) res.add("capped");
  }
  check("at the end");
  if (w.errors.length) res.bad("error", w.errors[0].stack || w.errors[0]);
  res.nontrivial = w.sockets.length > 2 && sent.length > 0;
  return res;
};
