// Reads one JSON request per line, answers with one JSON line.
"use strict";
const rl = require("readline").createInterface({ input: process.stdin });
process.on("unhandledRejection", (e) => { rejections.push(String((e && e.stack) || e)); });
process.stdout.on("error", () => process.exit(0));
const rejections = (globalThis.rejections = []);
const out = process.stdout.write.bind(process.stdout);
for (const k of ["log", "info", "warn", "error", "debug"]) console[k] = () => {};
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let answer;
    try {
      const { check, op, args } = JSON.parse(line);
      answer = { ok: await require("./" + check + ".cjs")[op](...(args || [])) };
    } catch (e) { answer = { error: String((e && e.stack) || e) }; }
    out(JSON.stringify(answer === undefined ? null : answer) + "\n");
  });
});
