// Runs inside node with the JavaScript module: one JSON request per line, one answer per line.
import fs from "node:fs";
import { pathToFileURL } from "node:url";

const m = await import(pathToFileURL(process.argv[2]).href);
const ks = new Map();

function opts(o) {
  const r = { ...o };
  if ("macros" in o && o.macros !== null) r.macros = new Map(o.macros);
  for (const k of o.undef ?? []) r[k] = undefined;
  delete r.undef;
  return r;
}

function call(f) {
  try {
    const r = f();
    if (typeof r === "string") return { ok: r };
    if (Array.isArray(r)) return { list: r };
    return { none: r === undefined };
  } catch (e) {
    if (e instanceof m.LatexError) {
      const r = { message: e.message, label: e.label, start: e.start, end: e.end };
      for (const k of ["index", "context", "report"]) if (e[k] !== undefined) r[k] = e[k];
      e.free();
      return { latex: r };
    }
    if (e instanceof m.ConfigParseError) return { config: e.message };
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { trap: String(e), stack: String(e.stack).slice(0, 1500) };
    return { throw: String(e), stack: String(e.stack).slice(0, 500) };
  }
}

function run(k, o) {
  const c = ks.get(k);
  switch (o[0]) {
    case "g":
      return call(() => c.convert_with_global_state(o[1], o[2]));
    case "l":
      return call(() => c.convert_with_local_state(o[1], o[2]));
    case "all":
      return call(() => c.convert_all(o[1].map(([latex, displayStyle]) => ({ latex, displayStyle }))));
    case "reset":
      return call(() => c.reset_global_state());
  }
}

function serve(q) {
  switch (q.op) {
    case "new":
      ks.get(q.k)?.free();
      ks.delete(q.k);
      return call(() => {
        ks.set(q.k, new m.LatexToMathML(opts(q.opts)));
      });
    case "do":
      return run(q.k, q.o);
    case "drop":
      for (const c of ks.values()) c.free();
      ks.clear();
      return {};
  }
}

let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  const i = buf.indexOf(10);
  if (i < 0) {
    let n;
    try {
      n = fs.readSync(0, chunk);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code === "EOF") break;
      throw e;
    }
    if (n === 0) break;
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
    continue;
  }
  const a = Buffer.from(JSON.stringify(serve(JSON.parse(buf.toString("utf8", 0, i)))) + "\n");
  buf = buf.subarray(i + 1);
  for (let w = 0; w < a.length; ) {
    try {
      w += fs.writeSync(1, a, w);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
