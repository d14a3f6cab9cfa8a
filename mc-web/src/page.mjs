// node page.mjs DIR GROUP TIER: explores the page's code in DIR against a model of the document.
// Prints "#CASE<TAB>key<TAB>ok|vacuous|message" per case.
import { readFileSync } from "node:fs";
import { pathToFileURL } from "node:url";
import vm from "node:vm";
import { makeGL, Unsupported } from "./gl.mjs";
const [dir, group, tier] = process.argv.slice(2);
const url = pathToFileURL(dir + "/app.mjs").href;
const out = (key, r) => process.stdout.write(`#CASE\t${key}\t${r === true ? "ok" : r === false ? "vacuous" : String(r).replace(/\s+/g, " ")}\n`);
async function check(key, f) {
  let r;
  try {
    r = await f();
  } catch (e) {
    // A page that uses more of WebGL than this checker knows is not decided.
    r = e instanceof Unsupported ? false : "threw " + e;
  }
  out(`page/${group}/${key}`, r);
}
console.log = () => {};
// A colour that tells its arguments apart.
const colour = (mag, max, floor, map) => {
  let h = 17;
  for (const v of [mag, max, floor, map === undefined ? 99 : map]) h = (h * 31 + Math.round(v * 4096)) >>> 0;
  return [h & 255, (h >>> 8) & 255, (h >>> 16) & 255];
};
globalThis.__colour = colour;

/** A canvas that supports some kinds of context and, as browsers do, gives out one kind for life. */
function makeCanvas(kinds) {
  const log = [];
  let given = null;
  const ctx2d = {
    createImageData(w, h) {
      if (!(w > 0 && h > 0)) throw new Error("IndexSizeError");
      return { width: w, height: h, data: new Uint8ClampedArray(w * h * 4) };
    },
    putImageData(img, x, y) {
      log.push({ op: "put", img, data: Uint8ClampedArray.from(img.data), x, y, w: canvas.width, h: canvas.height });
    },
  };
  const canvas = {
    width: 300,
    height: 150,
    log,
    get given() { return given; },
    getContext(kind) {
      if (!kinds.includes(kind)) return null;
      if (given && given !== kind) return null;
      given = kind;
      return kind === "2d" ? ctx2d : kind.startsWith("webgl") ? (this.gl ??= makeGL(kind, canvas)) : {};
    },
  };
  return canvas;
}
function result(w, h, salt) {
  const mags = new Float32Array(w * h);
  for (let i = 0; i < w * h; i++) mags[i] = Math.fround(((i * 37 + salt * 11) % 101) / 101 + i / 4096);
  return { mags, width: w, height: h, max_mag: 1.5 + salt };
}
/** What a canvas shows must be `res`: frame x from left to right, bin y from top to bottom. */
function shows(canvas, res, map, fn = colour) {
  const puts = canvas.log.filter((l) => l.op === "put");
  const p = puts[puts.length - 1];
  if (!p) return "nothing was drawn";
  if (p.x !== 0 || p.y !== 0) return `drawn at ${p.x},${p.y}`;
  if (p.w !== res.width || p.h !== res.height || canvas.width !== res.width || canvas.height !== res.height) return `the canvas is ${canvas.width}x${canvas.height}`;
  if (p.img.width !== res.width || p.img.height !== res.height) return `the image is ${p.img.width}x${p.img.height}`;
  for (let x = 0; x < res.width; x++)
    for (let y = 0; y < res.height; y++) {
      const want = [...fn(res.mags[x * res.height + y], res.max_mag, -80, map), 255];
      const at = 4 * (y * res.width + x);
      for (let i = 0; i < 4; i++) if (p.data[at + i] !== want[i]) return `pixel ${x},${y} is ${p.data.slice(at, at + 4)} instead of ${want}`;
    }
  return true;
}
/** The library's rainbow, as c27 wrote it: 4097 colours of 0..1. */
const rainbow = JSON.parse(readFileSync(dir + "/rainbow.json", "utf8"));
/** What a canvas drawn on through WebGL shows must be `res` in the rainbow's colours. */
function showsGL(canvas, res) {
  const p = canvas.gl.pixels;
  if (canvas.width !== res.width || canvas.height !== res.height) return `the canvas is ${canvas.width}x${canvas.height}`;
  if (!p) return "nothing was drawn";
  if (p.w !== res.width || p.h !== res.height) return `drawn at ${p.w}x${p.h}`;
  for (let x = 0; x < res.width; x++)
    for (let y = 0; y < res.height; y++) {
      const mag = res.mags[x * res.height + y];
      // All of a silent recording lies at the floor.
      const db = 20 * Math.log10(Math.max(res.max_mag > 0 ? mag / res.max_mag : 0, 1e-12));
      const t = Math.min(1, Math.max(0, (db + 80) / 80));
      const at = 4 * (y * res.width + x);
      const [lo, hi] = [[255, 255, 255], [0, 0, 0]];
      for (const u of [t - 2e-4, t, t + 2e-4]) {
        const c = rainbow[Math.min(4096, Math.max(0, Math.round(u * 4096)))];
        for (let i = 0; i < 3; i++) { lo[i] = Math.min(lo[i], c[i]); hi[i] = Math.max(hi[i], c[i]); }
      }
      for (let i = 0; i < 3; i++) if (p.data[at + i] < lo[i] - 3 || p.data[at + i] > hi[i] + 3) return `pixel ${x},${y} (${db.toFixed(3)} dB) is ${p.data.slice(at, at + 3)} instead of ${lo}..${hi}`;
      if (p.data[at + 3] !== 255) return `pixel ${x},${y} is translucent`;
    }
  return true;
}
const subsets = (a) => Array.from({ length: 1 << a.length }, (_, m) => a.filter((_, i) => (m >> i) & 1));

/** The document as the page sees it. */
function documentWith(canvas) {
  const listeners = {};
  globalThis.document = {
    getElementById(id) {
      if (id === "file") return { addEventListener: (ev, cb) => (listeners[ev] ??= []).push(cb) };
      if (id === "spec") return canvas;
      return null;
    },
  };
  return listeners;
}
const signals = [[0.5, -0.25, 1], Array.from({ length: 700 }, (_, i) => Math.sin(i)), Array.from({ length: 1300 }, (_, i) => (i % 13) / 13 - 0.4), Array.from({ length: 700 }, (_, i) => Math.cos(i / 5))];
globalThis.AudioContext = class {
  async decodeAudioData(buf) {
    const [id, gate] = new Uint8Array(buf);
    await gates[gate]?.decode;
    if (id === 255) throw new Error("cannot decode");
    return {
      numberOfChannels: 2,
      length: signals[id].length,
      sampleRate: 44100,
      getChannelData: (c) => Float32Array.from(signals[id], (v) => (c === 0 ? v : 7)),
    };
  }
};
/** Steps held back by a schedule: gates[n] = { read, decode } as promises. */
const gates = {};
// Different files may have the same name, size and date.
const fileOf = (id, gate = 0) => ({
  name: "same.wav", size: 2, lastModified: 7, type: "audio/wav",
  arrayBuffer: async () => { await gates[gate]?.read; return new Uint8Array([id, gate]).buffer; },
});
const settle = () => new Promise((r) => setImmediate(r));
/** Every order in which up to `top` overlapping selections can be read and decoded. */
async function overlaps(listeners, canvas, top) {
  const { stft_magnitudes, Colormap } = await import(pathToFileURL(dir + "/tests/pkg/web_spectrogram.js").href);
  const results = signals.map((x) => stft_magnitudes(Float32Array.from(x), 1024, 512));
  function* orders(n) {
    // progress[i]: 0 = not selected, 1 = selected, 2 = read, 3 = decoded
    const progress = Array(n).fill(0), seq = [];
    function* go() {
      if (progress.every((p) => p === 3)) { yield seq.slice(); return; }
      for (let i = 0; i < n; i++) {
        if (progress[i] === 3 || (progress[i] === 0 && i > 0 && progress[i - 1] === 0)) continue;
        progress[i]++;
        seq.push(i);
        yield* go();
        seq.pop();
        progress[i]--;
      }
    }
    yield* go();
  }
  const kinds = [0, 1, 3, 255];
  for (let n = 2; n <= top; n++)
    for (let code = 0; code < kinds.length ** n; code++) {
      const ids = Array.from({ length: n }, (_, i) => kinds[Math.floor(code / kinds.length ** i) % kinds.length]);
      if (n > 2 && ids.some((v, i) => i > 0 && v === ids[i - 1])) continue;
      if (n > 3 && ids.includes(3)) continue;
      for (const order of orders(n))
        await check(`${ids.map((v) => (v === 255 ? "bad" : "f" + v)).join(",")}/${order.join("")}`, async () => {
          canvas.log.splice(0, canvas.log.length - 1);
          const open = [], done = [], steps = Array(n).fill(0);
          for (let i = 0; i < n; i++) {
            const g = (gates[i + 1] = {});
            open[i] = {};
            for (const k of ["read", "decode"]) g[k] = new Promise((r) => (open[i][k] = r));
          }
          for (const i of order) {
            steps[i]++;
            if (steps[i] === 1) done[i] = Promise.all(listeners.change.map((cb) => cb({ target: { files: [fileOf(ids[i], i + 1)] } }))).catch(() => {});
            else open[i][steps[i] === 2 ? "read" : "decode"]();
            await settle();
          }
          await Promise.all(done);
          if (ids[n - 1] === 255) return false;
          return shows(canvas, results[ids[n - 1]], Colormap.Rainbow);
        });
    }
}
async function selections(listeners, canvas, depth) {
  const { stft_magnitudes, Colormap } = await import(pathToFileURL(dir + "/" + (typeof window === "undefined" ? "tests/pkg" : "pkg") + "/web_spectrogram.js").href);
  const fire = async (file) => {
    const rs = (listeners.change ?? []).map((cb) => cb({ target: { files: file === null ? [] : [file] } }));
    if (rs.length !== 1) throw new Error(`${rs.length} handlers for a selection`);
    await rs[0];
  };
  const events = ["none", "f0", "f1", "f2", "f3", "bad"];
  for (let d = 1; d <= depth; d++)
    for (let code = 0; code < events.length ** d; code++) {
      const seq = [];
      for (let c = code, i = 0; i < d; i++, c = Math.floor(c / events.length)) seq.push(events[c % events.length]);
      await check(seq.join(","), async () => {
        canvas.log.splice(0, canvas.log.length - 1);
        let drawn = 0;
        for (const ev of seq) {
          const before = canvas.log.length;
          if (ev === "none") {
            await fire(null);
            if (canvas.log.length !== before) return "drew without a file";
          } else if (ev === "bad") {
            let failed = false;
            await fire(fileOf(255)).catch(() => (failed = true));
            if (canvas.log.length !== before) return "drew a file that cannot be decoded";
          } else {
            const id = Number(ev[1]);
            await fire(fileOf(id));
            // What is shown counts, not how often it was computed. The stand-in's
            // magnitudes tell the samples, the window and the hop apart.
            const r = shows(canvas, stft_magnitudes(Float32Array.from(signals[id]), 1024, 512), Colormap.Rainbow);
            if (r !== true) return r;
            drawn++;
          }
        }
        return drawn > 0;
      });
    }
}

const groups = {
  async decibels() {
    const app = await import(url);
    const mags = [0, 1e-30, 1e-13, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.25, 0.5, 0.999, 1, 1.5, 2, 10, 1e3, 1e9];
    for (const max of mags.filter((m) => m > 0))
      await check(`max=${max}`, () => {
        for (const mag of mags) {
          const want = 20 * Math.log10(Math.max(mag / max, 1e-12));
          const got = app.magnitudeToDb(mag, max);
          if (!(Math.abs(got - want) < 1e-6)) return `${mag}: ${got} instead of ${want}`;
        }
        return true;
      });
    await check("silence", () => {
      const got = app.magnitudeToDb(0, 0);
      return Math.abs(got + 240) < 1e-6 || `0 of 0: ${got} instead of -240`;
    });
  },
  async canvas() {
    const app = await import(url);
    const top = tier === "quick" ? 8 : 16;
    const sizes = [];
    for (let w = 1; w <= top; w++) for (let h = 1; h <= top; h++) sizes.push([w, h]);
    sizes.push([300, 512], [1, 512], [517, 3], [1000, 1]);
    for (const [w, h] of sizes)
      for (const map of [0, 3, 6])
        await check(`${w}x${h}/map${map}`, () => {
          const c = makeCanvas(["2d"]);
          const res = result(w, h, map);
          app.drawSpectrogram(c, res, colour, map);
          const r = shows(c, res, map);
          if (r !== true) return r;
          // The same canvas again, with another result.
          const next = result(h, w + 1, map + 1);
          app.drawSpectrogram(c, next, colour, map);
          return shows(c, next, map);
        });
  },
  /** Every sequence of drawings that differ only in the maximum, the colour map, the
      colour function, the shape or the canvas. */
  async redraw() {
    const app = await import(url);
    const swapped = (...a) => { const [x, y, z] = colour(...a); return [z, x, y]; };
    const draws = [];
    for (const max of [1.5, 3]) for (const map of [0, 6]) for (const fn of [colour, swapped]) for (const shape of [[4, 3], [3, 4]]) for (const at of [0, 1]) draws.push({ max, map, fn, shape, at });
    const depth = tier === "quick" ? 2 : 3;
    for (let d = 1; d <= depth; d++)
      for (let code = 0; code < draws.length ** d; code++) {
        const seq = Array.from({ length: d }, (_, i) => draws[Math.floor(code / draws.length ** i) % draws.length]);
        await check(seq.map((v) => `${v.max}/${v.map}/${v.fn === colour ? "c" : "s"}/${v.shape.join("x")}/${v.at}`).join(","), () => {
          const canvases = [makeCanvas(["2d"]), makeCanvas(["2d"])];
          for (const v of seq) {
            const [w, h] = v.shape;
            const res = { ...result(w, h, 1), max_mag: v.max };
            app.drawSpectrogram(canvases[v.at], res, v.fn, v.map);
            const r = shows(canvases[v.at], res, v.map, v.fn);
            if (r !== true) return r;
          }
          return true;
        });
      }
  },
  async contexts() {
    const app = await import(url);
    for (const gpu of [false, true])
      for (const kinds of subsets(["2d", "webgl", "webgl2", "webgpu"]))
        for (const [w, h] of [[1, 1], [2, 3], [5, 2]])
          await check(`${kinds.join("+") || "none"}/gpu=${gpu}/${w}x${h}`, () => {
            Object.defineProperty(globalThis, "navigator", { value: gpu ? { gpu: {} } : {}, configurable: true, writable: true });
            const c = makeCanvas(kinds);
            const res = result(w, h, 1);
            const any = kinds.some((k) => k !== "webgpu");
            if (!any) return false;
            app.drawSpectrogram(c, res, colour, 6);
            if (!c.given) return "no context was used";
            if (c.given === "2d") return shows(c, res, 6);
            if (!c.given.startsWith("webgl")) return `used ${c.given}`;
            const r = showsGL(c, res);
            if (r !== true) return r;
            // The same canvas again, with another result.
            const next = result(h + 1, w, 2);
            app.drawSpectrogram(c, next, colour, 6);
            return showsGL(c, next);
          });
  },
  async webgl() {
    const app = await import(url);
    const top = tier === "quick" ? 6 : 12;
    const sizes = [];
    for (let w = 1; w <= top; w++) for (let h = 1; h <= top; h++) sizes.push([w, h]);
    sizes.push([40, 64], [1, 512], [64, 3], [33, 17]);
    for (const kind of ["webgl", "webgl2"])
      for (const [w, h] of sizes)
        for (const max of [0, 1e-3, 1, 2.5, 700])
          await check(`${kind}/${w}x${h}/max=${max}`, () => {
            const c = makeCanvas([kind]);
            // From far below the floor to the maximum, in steps that meet every colour.
            const mags = Float32Array.from({ length: w * h }, (_, i) => (i === 0 ? max : i === 1 ? 0 : max * 10 ** (-((i * 37) % 181) / 36)));
            const res = { mags, width: w, height: h, max_mag: Math.fround(max) };
            app.drawSpectrogram(c, res, colour, 6);
            return showsGL(c, res);
          });
  },
  async select() {
    const app = await import(url);
    const canvas = makeCanvas(["2d"]);
    const listeners = documentWith(canvas);
    await app.initApp();
    await selections(listeners, canvas, tier === "quick" ? 3 : 4);
  },
  async overlap() {
    const app = await import(url);
    const canvas = makeCanvas(["2d"]);
    const listeners = documentWith(canvas);
    await app.initApp();
    await overlaps(listeners, canvas, tier === "quick" ? 3 : 4);
  },
  async "select-browser"() {
    globalThis.window = globalThis;
    globalThis.__wasm = { init: 0, stft: [] };
    const canvas = makeCanvas(["2d"]);
    const listeners = documentWith(canvas);
    await import(url);
    for (let i = 0; i < 200 && !listeners.change; i++) await new Promise((r) => setTimeout(r, 10));
    await check("starts", () => (globalThis.__wasm.init === 1 ? true : `the bindings were initialised ${globalThis.__wasm.init} times`));
    await selections(listeners, canvas, tier === "quick" ? 3 : 4);
  },
  async buffer() {
    const app = await import(url);
    const original = globalThis.Buffer;
    await check("kept", () => {
      app.ensureBuffer();
      return globalThis.Buffer === original ? true : "an existing Buffer was replaced";
    });
    for (let n = 0; n <= 40; n++) {
      let r;
      try {
        globalThis.Buffer = undefined;
        app.ensureBuffer();
        const B = globalThis.Buffer;
        const bytes = Uint8Array.from({ length: n }, (_, i) => (i * 41 + 3) & 255);
        r = true;
        for (const [what, src] of [["array", Array.from(bytes)], ["Uint8Array", bytes], ["ArrayBuffer", bytes.buffer]]) {
          const b = B.from(src);
          if (!(b instanceof Uint8Array) || b.length !== n || b.some((v, i) => v !== bytes[i])) r = `from ${what} gives ${b}`;
        }
        app.ensureBuffer();
        if (globalThis.Buffer !== B) r = "the stand-in was replaced by another";
      } catch (e) {
        r = "threw " + e;
      } finally {
        globalThis.Buffer = original;
      }
      await check(`polyfill/n=${n}`, () => r);
    }
  },
  async worker() {
    const source = readFileSync(dir + "/sw.js", "utf8");
    const base = "http://localhost:3000/";
    const urlOf = (r) => new URL(typeof r === "string" ? r : r.url, base).href;
    const methodOf = (r) => (typeof r === "string" ? "GET" : r.method ?? "GET");
    /** A worker over a network (version of the files, reachable or not) and the caches of a browser. */
    function make() {
      const net = { version: 1, offline: false, broken: null, asked: [] };
      const stores = new Map();
      const fetch = async (r) => {
        const u = urlOf(r);
        net.asked.push(methodOf(r) + " " + u);
        if (net.offline || u === net.broken) throw new TypeError("offline");
        const res = { url: u, version: net.version, ok: true, status: 200, type: "basic", clone: () => ({ ...res }) };
        return res;
      };
      const strip = (u, o) => (o?.ignoreSearch ? u.split("?")[0] : u);
      const lookup = (m, r, o) => {
        if (methodOf(r) !== "GET" && !o?.ignoreMethod) return undefined;
        for (const [u, v] of m) if (strip(u, o) === strip(urlOf(r), o)) return v;
        return undefined;
      };
      const cacheOf = (m) => ({
        addAll: async (l) => { const all = await Promise.all(l.map((r) => fetch(r))); l.forEach((r, i) => m.set(urlOf(r), all[i])); },
        add: async (r) => { m.set(urlOf(r), await fetch(r)); },
        put: async (r, v) => { m.set(urlOf(r), v); },
        match: async (r, o) => lookup(m, r, o),
        delete: async (r) => m.delete(urlOf(r)),
        keys: async () => [...m.keys()].map((url) => ({ url, method: "GET" })),
      });
      const caches = {
        open: async (n) => cacheOf(stores.get(n) ?? stores.set(n, new Map()).get(n)),
        match: async (r, o) => { for (const m of stores.values()) { const v = lookup(m, r, o); if (v) return v; } return undefined; },
        has: async (n) => stores.has(n),
        keys: async () => [...stores.keys()],
        delete: async (n) => stores.delete(n),
      };
      const handlers = {};
      const self = { addEventListener: (k, f) => (handlers[k] ??= []).push(f), skipWaiting: async () => {}, clients: { claim: async () => {} }, location: new URL(base + "sw.js"), registration: {}, caches, fetch };
      vm.runInNewContext(source, { self, caches, fetch, clients: self.clients, console: { log() {}, warn() {}, error() {} }, Promise, URL, Response, addEventListener: self.addEventListener, location: self.location });
      const run = async (kind, request) => {
        let answer = null;
        const waits = [];
        const ev = { request, waitUntil: (x) => waits.push(x), respondWith: (x) => (answer = x) };
        for (const f of handlers[kind] ?? []) f(ev);
        await Promise.all(waits);
        return kind === "fetch" ? await (answer ?? fetch(request)) : undefined;
      };
      return { net, run };
    }
    const kept = ["", "index.html", "app.mjs", "manifest.json"];
    for (const k of kept) if (k) readFileSync(dir + "/" + k);
    const paths = [...kept, "?v=2", "app.mjs?v=2", "other.html", "pkg/web_spectrogram.js", "pkg/web_spectrogram_bg.wasm", "sub/", "sub/app.mjs", "http://example.com/app.mjs"];
    // Every sequence of events, against: what the last complete installation stored, the network otherwise.
    const events = ["install", "update", "offline", "online", "break", "activate"];
    const depth = tier === "quick" ? 4 : 6;
    for (let d = 0; d <= depth; d++)
      for (let code = 0; code < events.length ** d; code++) {
        const seq = [];
        for (let c = code, i = 0; i < d; i++, c = Math.floor(c / events.length)) seq.push(events[c % events.length]);
        await check(`after ${seq.join(",") || "nothing"}`, async () => {
          const { net, run } = make();
          let stored = null;
          const ask = async (path, method) => {
            const url = new URL(path, base).href;
            net.asked.length = 0;
            let got = null;
            try {
              got = await run("fetch", { url, method, headers: { get: () => null }, mode: "navigate", destination: "" });
            } catch {
              got = null;
            }
            const hit = method === "GET" && stored !== null && kept.includes(path);
            const want = hit ? stored : net.offline || url === net.broken ? null : net.version;
            if ((got === null ? null : got.version) !== want || (got && got.url !== url)) return `${method} ${url}: ${got ? `version ${got.version} of ${got.url}` : "no answer"} instead of ${want === null ? "none" : "version " + want}`;
            return true;
          };
          for (const ev of seq) {
            if (ev === "update") net.version++;
            else if (ev === "offline" || ev === "online") net.offline = ev === "offline";
            else if (ev === "break") net.broken = net.broken ? null : base + "app.mjs";
            else {
              let failed = false;
              await run(ev).catch(() => (failed = true));
              if (ev === "install") {
                if (failed !== (net.offline || net.broken !== null)) return failed ? "the installation failed" : "a failed installation was reported as complete";
                if (!failed) stored = net.version;
              } else if (failed) return `${ev} failed`;
            }
          }
          for (let twice = 0; twice < 2; twice++)
            for (const p of paths)
              for (const m of ["GET", "POST"]) {
                const r = await ask(p, m);
                if (r !== true) return r;
              }
          return true;
        });
      }
  },
};
await groups[group]();
