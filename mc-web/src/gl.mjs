// A small WebGL: enough of the state, of the validity rules of the specification and of GLSL ES to
// say which colour every pixel of a canvas gets.  Anything it does not know throws Unsupported.
export class Unsupported extends Error {}
const no = (m) => { throw new Unsupported(m); };

// ---------------------------------------------------------------- shading language
function lex(src) {
  src = src.replace(/\/\*[\s\S]*?\*\//g, " ").replace(/\/\/[^\n]*/g, " ");
  const defs = {};
  src = src.replace(/^[ \t]*#(.*)$/gm, (_, d) => {
    const m = d.match(/^\s*define\s+(\w+)\s+(.*)$/);
    if (m) defs[m[1]] = m[2];
    else if (!/^\s*(version|extension|ifdef\s+GL_ES|endif|pragma)/.test(d)) no("directive " + d);
    return "";
  });
  const toks = [];
  const re = /\s*(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\d+u?|[A-Za-z_]\w*|\+\+|--|[-+*\/]=|[<>=!]=|&&|\|\||[-+*\/%<>=!?:;,.(){}\[\]])/y;
  let at = 0;
  while (src.slice(at).trim()) {
    re.lastIndex = at;
    const m = re.exec(src);
    if (!m) no("token at " + src.slice(at, at + 20));
    at = re.lastIndex;
    if (defs[m[1]] !== undefined) toks.push(...lex(defs[m[1]]));
    else toks.push(m[1]);
  }
  return toks;
}
const TYPES = { float: 1, int: 1, uint: 1, bool: 1, vec2: 2, vec3: 3, vec4: 4, ivec2: 2, void: 0, sampler2D: -1 };
const QUAL = new Set(["const", "attribute", "varying", "uniform", "in", "out", "highp", "mediump", "lowp", "flat", "smooth"]);
/** The program of a shader: { globals: [{name, type, q, init}], funcs: {name: {params, body}} } */
function parse(src) {
  const t = lex(src);
  let i = 0;
  const peek = (k = 0) => t[i + k];
  const next = () => t[i++];
  const want = (x) => (next() === x ? x : no(`expected ${x} before ${t.slice(i - 1, i + 3).join(" ")}`));
  const is = (x) => peek() === x && (i++, true);
  const globals = [], funcs = {};
  const isType = (x) => Object.hasOwn(TYPES, x);
  function primary() {
    const x = next();
    let e;
    if (x === "(") { e = expr(); want(")"); }
    else if (/^[\d.]/.test(x)) e = ["num", parseFloat(x), /^\d+u?$/.test(x)];
    else if (x === "true" || x === "false") e = ["num", x === "true" ? 1 : 0];
    else if (/^\w/.test(x)) {
      if (is("(")) {
        const a = [];
        if (!is(")")) { do a.push(assign()); while (is(",")); want(")"); }
        e = ["call", x, a];
      } else e = ["var", x];
    } else no("unexpected " + x);
    for (;;) {
      if (is(".")) e = ["field", e, next()];
      else if (is("[")) { e = ["index", e, expr()]; want("]"); }
      else if (peek() === "++" || peek() === "--") e = ["post", next(), e];
      else return e;
    }
  }
  function unary() {
    if (["-", "!", "+", "++", "--"].includes(peek())) { const o = next(); return ["un", o, unary()]; }
    return primary();
  }
  const LEVELS = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]];
  function binary(l) {
    if (l === LEVELS.length) return unary();
    let e = binary(l + 1);
    while (LEVELS[l].includes(peek())) { const o = next(); e = ["bin", o, e, binary(l + 1)]; }
    return e;
  }
  function assign() {
    const e = binary(0);
    if (is("?")) { const a = assign(); want(":"); return ["cond", e, a, assign()]; }
    if (["=", "+=", "-=", "*=", "/="].includes(peek())) { const o = next(); return ["set", o, e, assign()]; }
    return e;
  }
  function expr() {
    let e = assign();
    while (is(",")) e = ["seq", e, assign()];
    return e;
  }
  function qualifiers() {
    const q = [];
    for (;;) {
      if (QUAL.has(peek())) q.push(next());
      else if (peek() === "layout") { while (next() !== ")"); }
      else return q;
    }
  }
  function declaration(type) {
    const list = [];
    do {
      const name = next();
      if (peek() === "[") no("array");
      list.push([name, is("=") ? assign() : null]);
    } while (is(","));
    want(";");
    return ["decl", type, list];
  }
  function statement() {
    if (is("{")) { const b = []; while (!is("}")) b.push(statement()); return ["block", b]; }
    if (is(";")) return ["block", []];
    if (is("if")) {
      want("("); const c = expr(); want(")");
      const a = statement();
      return ["if", c, a, is("else") ? statement() : null];
    }
    if (is("for")) {
      want("(");
      const init = statement(), c = peek() === ";" ? ["num", 1] : expr();
      want(";");
      const step = peek() === ")" ? ["num", 1] : expr();
      want(")");
      return ["for", init, c, step, statement()];
    }
    if (is("return")) { const e = peek() === ";" ? null : expr(); want(";"); return ["return", e]; }
    if (["break", "continue", "discard", "while", "do", "switch"].includes(peek())) no(peek());
    qualifiers();
    if (isType(peek()) && /^\w/.test(peek(1)) ) return declaration(next());
    const e = expr(); want(";");
    return ["expr", e];
  }
  while (i < t.length) {
    if (is("precision")) { while (next() !== ";"); continue; }
    const q = qualifiers();
    const type = next();
    if (!isType(type)) no("type " + type);
    if (peek(1) === "(") {
      const name = next(), params = [];
      want("(");
      if (!is(")")) {
        do {
          const pq = qualifiers();
          if (pq.includes("out")) no("out parameter");
          const pt = next();
          if (pt !== "void") params.push([pt, next()]);
        } while (is(","));
        want(")");
      }
      if (is(";")) continue;
      funcs[name] = { params, body: statement(), type };
    } else {
      const [, , list] = declaration(type);
      for (const [name, init] of list) globals.push({ name, type, q, init });
    }
  }
  return { globals, funcs };
}
const arr = (v) => (Array.isArray(v) ? v : [v]);
const num = (v) => (v.length === 1 ? v[0] : v);
function map2(f) {
  return (a, b) => {
    if (!Array.isArray(a) && !Array.isArray(b)) return f(a, b);
    const [x, y] = [arr(a), arr(b)];
    const n = Math.max(x.length, y.length);
    return Array.from({ length: n }, (_, i) => f(x[x.length === 1 ? 0 : i], y[y.length === 1 ? 0 : i]));
  };
}
const map1 = (f) => (a) => (Array.isArray(a) ? a.map(f) : f(a));
const OPS = { "+": map2((a, b) => a + b), "-": map2((a, b) => a - b), "*": map2((a, b) => a * b), "/": map2((a, b) => a / b) };
const clamp = (x, a, b) => map2(Math.min)(map2(Math.max)(x, a), b);
const FUNCS = {
  min: map2(Math.min), max: map2(Math.max), pow: map2(Math.pow), step: map2((e, x) => (x < e ? 0 : 1)), mod: map2((a, b) => a - b * Math.floor(a / b)),
  clamp, mix: (a, b, t) => OPS["+"](OPS["*"](a, OPS["-"](1, t)), OPS["*"](b, t)),
  smoothstep: (a, b, x) => { const t = clamp(OPS["/"](OPS["-"](x, a), OPS["-"](b, a)), 0, 1); return map1((v) => v * v * (3 - 2 * v))(t); },
  dot: (a, b) => arr(OPS["*"](a, b)).reduce((s, v) => s + v, 0), length: (a) => Math.hypot(...arr(a)),
  fract: map1((v) => v - Math.floor(v)),
};
for (const f of ["abs", "floor", "ceil", "log", "log2", "exp", "sqrt", "sign", "sin", "cos"]) FUNCS[f] = map1(Math[f]);
FUNCS.exp2 = map1((v) => 2 ** v);
const FIELDS = {};
for (const s of ["xyzw", "rgba", "stpq"]) [...s].forEach((c, i) => (FIELDS[c] = i));
function construct(type, args) {
  const n = TYPES[type];
  const v = args.flatMap(arr);
  if (n === 1) {
    const x = v[0];
    return type === "int" || type === "uint" ? Math.trunc(x) : type === "bool" ? (x ? 1 : 0) : x;
  }
  const w = v.length === 1 ? Array(n).fill(v[0]) : v.slice(0, n);
  if (w.length !== n) no(`${type} of ${v.length}`);
  return type.startsWith("i") ? w.map(Math.trunc) : w;
}
class Return { constructor(v) { this.v = v; } }
/** Runs main() with `env` as the values of the globals; returns the globals afterwards. */
function execute(prog, env, sample) {
  const copy = (v) => (Array.isArray(v) ? v.slice() : v);
  const g = { ...env };
  const zero = (t) => (TYPES[t] > 1 ? Array(TYPES[t]).fill(0) : 0);
  const intTypes = (e, s) => e[0] === "num" ? !!e[2] : e[0] === "call" ? /^(int|uint|textureSize)/.test(e[1]) : e[0] === "bin" ? intTypes(e[2], s) && intTypes(e[3], s) : e[0] === "var" ? s.ints?.has(e[1]) : e[0] === "un" ? intTypes(e[2], s) : e[0] === "field" ? intTypes(e[1], s) : false;
  function find(s, name) {
    for (let x = s; x; x = x.up) if (Object.hasOwn(x.v, name)) return x.v;
    return Object.hasOwn(g, name) ? g : no("undefined " + name);
  }
  function ev(e, s) {
    switch (e[0]) {
      case "num": return e[1];
      case "var": return copy(find(s, e[1])[e[1]]);
      case "un": {
        if (e[1] === "++" || e[1] === "--") return put(e[2], OPS[e[1][0]](ev(e[2], s), 1), s);
        const v = ev(e[2], s);
        return e[1] === "-" ? map1((x) => -x)(v) : e[1] === "!" ? (v ? 0 : 1) : v;
      }
      case "post": { const v = ev(e[2], s); put(e[2], OPS[e[1][0]](v, 1), s); return v; }
      case "seq": ev(e[1], s); return ev(e[2], s);
      case "cond": return ev(e[1], s) ? ev(e[2], s) : ev(e[3], s);
      case "bin": {
        if (e[1] === "&&") return ev(e[2], s) && ev(e[3], s) ? 1 : 0;
        if (e[1] === "||") return ev(e[2], s) || ev(e[3], s) ? 1 : 0;
        const [a, b] = [ev(e[2], s), ev(e[3], s)];
        if (e[1] in OPS) return e[1] === "/" && intTypes(e, s) ? map1(Math.trunc)(OPS["/"](a, b)) : OPS[e[1]](a, b);
        switch (e[1]) {
          case "<": return a < b ? 1 : 0;
          case ">": return a > b ? 1 : 0;
          case "<=": return a <= b ? 1 : 0;
          case ">=": return a >= b ? 1 : 0;
          case "==": return arr(a).every((x, i) => x === arr(b)[i]) ? 1 : 0;
          case "!=": return arr(a).every((x, i) => x === arr(b)[i]) ? 0 : 1;
          case "%": return a % b;
        }
        return no(e[1]);
      }
      case "field": {
        const v = arr(ev(e[1], s));
        return num([...e[2]].map((c) => v[FIELDS[c] ?? no("field " + e[2])] ?? no("field " + e[2])));
      }
      case "index": return ev(e[1], s)[ev(e[2], s)] ?? no("index");
      case "set": {
        const v = ev(e[3], s);
        return put(e[2], e[1] === "=" ? v : OPS[e[1][0]](ev(e[2], s), v), s);
      }
      case "call": {
        const a = e[2].map((x) => ev(x, s));
        if (Object.hasOwn(prog.funcs, e[1])) {
          const f = prog.funcs[e[1]];
          const r = run(f.body, { v: Object.fromEntries(f.params.map(([, n], i) => [n, copy(a[i])])), ints: new Set(f.params.filter(([t]) => /int/.test(t)).map(([, n]) => n)), up: null });
          return r instanceof Return ? r.v : 0;
        }
        if (Object.hasOwn(TYPES, e[1])) return construct(e[1], a);
        if (e[1] === "texture2D" || e[1] === "texture") return sample(a[0], a[1][0], a[1][1]);
        if (e[1] === "texelFetch") return sample(a[0], a[1][0], a[1][1], true);
        if (e[1] === "textureSize") return sample(a[0], null);
        if (Object.hasOwn(FUNCS, e[1])) return FUNCS[e[1]](...a);
        return no("function " + e[1]);
      }
    }
    return no(e[0]);
  }
  function put(to, v, s) {
    if (to[0] === "var") return (find(s, to[1])[to[1]] = copy(v));
    if (to[0] === "field" && to[1][0] === "var") {
      const o = find(s, to[1][1])[to[1][1]];
      [...to[2]].forEach((c, i) => (o[FIELDS[c]] = arr(v)[i]));
      return v;
    }
    return no("assignment");
  }
  function run(st, s) {
    switch (st[0]) {
      case "block": {
        const inner = { v: {}, ints: new Set(s.ints), up: s };
        for (const x of st[1]) { const r = run(x, inner); if (r) return r; }
        return;
      }
      case "decl":
        for (const [n, init] of st[2]) {
          s.v[n] = init ? copy(ev(init, s)) : zero(st[1]);
          if (/int/.test(st[1])) (s.ints ??= new Set()).add(n);
          else s.ints?.delete(n);
        }
        return;
      case "expr": ev(st[1], s); return;
      case "return": return new Return(st[1] ? ev(st[1], s) : 0);
      case "if": return ev(st[1], s) ? run(st[2], s) : st[3] ? run(st[3], s) : undefined;
      case "for": {
        const inner = { v: {}, ints: new Set(s.ints), up: s };
        run(st[1], inner);
        for (let k = 0; ev(st[2], inner); k++) {
          if (k > 10000) no("endless loop");
          const r = run(st[4], inner);
          if (r) return r;
          ev(st[3], inner);
        }
        return;
      }
    }
    return no(st[0]);
  }
  for (const d of prog.globals) if (!Object.hasOwn(g, d.name)) g[d.name] = d.init ? ev(d.init, { v: {}, up: null }) : zero(d.type);
  run(prog.funcs.main.body, { v: {}, ints: new Set(), up: null });
  return g;
}

// ---------------------------------------------------------------- state
const NAMES = "VERTEX_SHADER FRAGMENT_SHADER COMPILE_STATUS LINK_STATUS ARRAY_BUFFER STATIC_DRAW DYNAMIC_DRAW FLOAT UNSIGNED_BYTE UNSIGNED_SHORT TEXTURE_2D TEXTURE0 TEXTURE1 TEXTURE_MIN_FILTER TEXTURE_MAG_FILTER TEXTURE_WRAP_S TEXTURE_WRAP_T NEAREST LINEAR NEAREST_MIPMAP_LINEAR REPEAT CLAMP_TO_EDGE RGBA RGB LUMINANCE ALPHA TRIANGLES TRIANGLE_STRIP TRIANGLE_FAN COLOR_BUFFER_BIT UNPACK_ALIGNMENT UNPACK_FLIP_Y_WEBGL NO_ERROR INVALID_OPERATION INVALID_VALUE MAX_TEXTURE_SIZE".split(" ");
const NAMES2 = "RED R32F R8 R16F RGBA32F RGBA8 RG RG32F".split(" ");
/** kind "webgl" or "webgl2". */
export function makeGL(kind, canvas) {
  const two = kind === "webgl2";
  const gl = { pixels: null };
  [...NAMES, ...(two ? NAMES2 : [])].forEach((n, i) => (gl[n] = n === "NO_ERROR" ? 0 : n === "TEXTURE0" ? 9000 : n === "TEXTURE1" ? 9001 : 1000 + i));
  let error = 0, program = null, buffer = null, unit = 0, flip = false, align = 4, viewport = null, clear = [0, 0, 0, 0];
  const units = [], attribs = [], ext = new Set();
  const fail = (e) => { error ||= e; };
  const pixels = () => {
    if (!gl.pixels || gl.pixels.w !== canvas.width || gl.pixels.h !== canvas.height) gl.pixels = { w: canvas.width, h: canvas.height, data: new Uint8ClampedArray(canvas.width * canvas.height * 4) };
    return gl.pixels;
  };
  const F = {
    getExtension(n) { if (n === "OES_texture_float" && !two) { ext.add(n); return {}; } return null; },
    getError() { const e = error; error = 0; return e; },
    isContextLost: () => false,
    getParameter: (p) => (p === gl.MAX_TEXTURE_SIZE ? 16384 : null),
    createShader: (type) => ({ type }),
    shaderSource(s, src) { s.src = src; },
    compileShader(s) { s.prog = parse(s.src); },
    getShaderParameter: () => true,
    getShaderInfoLog: () => "",
    createProgram: () => ({ uniforms: {} }),
    attachShader(p, s) { if (s.type === gl.VERTEX_SHADER) p.vs = s; else p.fs = s; },
    bindAttribLocation() { no("bindAttribLocation"); },
    linkProgram(p) {
      p.attribs = p.vs.prog.globals.filter((d) => d.q.includes("attribute") || d.q.includes("in"));
      const of = (s) => s.prog.globals.filter((d) => d.q.includes("uniform"));
      p.declared = [...of(p.vs), ...of(p.fs)];
    },
    getProgramParameter: () => true,
    getProgramInfoLog: () => "",
    validateProgram() {}, deleteShader() {}, deleteProgram() {}, detachShader() {}, deleteBuffer() {}, deleteTexture(t) { if (units[unit] === t) units[unit] = null; },
    useProgram(p) { program = p; },
    createBuffer: () => ({}),
    bindBuffer(t, b) { if (t !== gl.ARRAY_BUFFER) no("buffer target"); buffer = b; },
    bufferData(t, d) { buffer.data = Float32Array.from(d); },
    getAttribLocation: (p, n) => p.attribs.findIndex((d) => d.name === n),
    enableVertexAttribArray(l) { (attribs[l] ??= {}).on = true; },
    disableVertexAttribArray(l) { (attribs[l] ??= {}).on = false; },
    vertexAttribPointer(l, size, type, norm, stride, offset) { if (type !== gl.FLOAT) no("attribute type"); Object.assign((attribs[l] ??= {}), { size, stride: stride || 4 * size, offset, buffer }); },
    createTexture: () => ({ min: gl.NEAREST_MIPMAP_LINEAR, mag: gl.LINEAR, s: gl.REPEAT, t: gl.REPEAT }),
    activeTexture(u) { unit = u - gl.TEXTURE0; },
    bindTexture(t, x) { if (t !== gl.TEXTURE_2D) no("texture target"); units[unit] = x; },
    pixelStorei(p, v) { if (p === gl.UNPACK_FLIP_Y_WEBGL) flip = !!v; else if (p === gl.UNPACK_ALIGNMENT) align = v; else no("pixelStorei"); },
    texParameteri(t, p, v) {
      const x = units[unit];
      const k = new Map([[gl.TEXTURE_MIN_FILTER, "min"], [gl.TEXTURE_MAG_FILTER, "mag"], [gl.TEXTURE_WRAP_S, "s"], [gl.TEXTURE_WRAP_T, "t"]]).get(p) ?? no("texParameteri");
      if (v === undefined) fail(gl.INVALID_OPERATION); else x[k] = v;
    },
    texImage2D(t, level, internal, w, h, border, format, type, data) {
      const x = units[unit];
      if (level !== 0 || border !== 0 || !(w <= 16384 && h <= 16384)) return fail(gl.INVALID_VALUE);
      if (data !== null && !ArrayBuffer.isView(data)) throw new TypeError("texImage2D: not an ArrayBufferView");
      const U = undefined;
      if (internal === U || format === U || type === U) return fail(gl.INVALID_OPERATION);
      const basic = [[gl.RGBA, 4], [gl.RGB, 3], [gl.LUMINANCE, 1], [gl.ALPHA, 1]];
      let n = null, float = type === gl.FLOAT;
      for (const [f, k] of basic) if (internal === f && format === f && (type === gl.UNSIGNED_BYTE || (float && !two && ext.has("OES_texture_float")))) n = k;
      if (two) for (const [i, f, ty, k] of [[gl.R32F, gl.RED, gl.FLOAT, 1], [gl.R16F, gl.RED, gl.FLOAT, 1], [gl.RG32F, gl.RG, gl.FLOAT, 2], [gl.RGBA32F, gl.RGBA, gl.FLOAT, 4], [gl.R8, gl.RED, gl.UNSIGNED_BYTE, 1], [gl.RGBA8, gl.RGBA, gl.UNSIGNED_BYTE, 4]]) if (internal === i && format === f && type === ty) n = k;
      if (n === null) return fail(gl.INVALID_OPERATION);
      if (data && (float ? !(data instanceof Float32Array) : !(data instanceof Uint8Array || data instanceof Uint8ClampedArray))) return fail(gl.INVALID_OPERATION);
      const size = (float ? 4 : 1) * n * w, row = Math.ceil(size / align) * align / (float ? 4 : 1);
      if (data && data.length < row * (h - 1) + n * w) return fail(gl.INVALID_OPERATION);
      const texels = [];
      for (let r = 0; r < h; r++) for (let c = 0; c < w; c++) {
        const at = (flip ? h - 1 - r : r) * row + c * n;
        const v = data ? Array.from(data.subarray(at, at + n), (q) => (float ? q : q / 255)) : Array(n).fill(0);
        texels.push(format === gl.LUMINANCE ? [v[0], v[0], v[0], 1] : format === gl.ALPHA ? [0, 0, 0, v[0]] : [v[0], v[1] ?? 0, v[2] ?? 0, v[3] ?? 1]);
      }
      x.image = { w, h, texels, float };
    },
    generateMipmap() { no("generateMipmap"); },
    getUniformLocation(p, n) { return p.declared.some((d) => d.name === n) ? { p, n } : null; },
    viewport(x, y, w, h) { viewport = { x, y, w, h }; },
    clearColor(...c) { clear = c; },
    clear() { const p = pixels(); for (let i = 0; i < p.data.length; i++) p.data[i] = Math.round(clear[i & 3] * 255); },
    flush() {}, finish() {}, disable() {}, enable() { no("enable"); },
    drawArrays(mode, first, count) {
      if (!program) return fail(gl.INVALID_OPERATION);
      const { vs, fs } = program;
      const at = { ...program.uniforms };
      const sample = (name, s, t, fetch) => {
        const x = units[name];
        const im = x?.image;
        if (s === null) return im ? [im.w, im.h] : [0, 0];
        const pot = (v) => (v & (v - 1)) === 0;
        const black = [0, 0, 0, 1];
        if (!im || im.w === 0 || im.h === 0) return black;
        if (![gl.NEAREST, gl.LINEAR].includes(x.min)) return black;
        if (im.float && (x.min !== gl.NEAREST || x.mag !== gl.NEAREST)) return black;
        if (!two && (x.s !== gl.CLAMP_TO_EDGE || x.t !== gl.CLAMP_TO_EDGE) && !(pot(im.w) && pot(im.h))) return black;
        if (!im.float && (x.min !== gl.NEAREST || x.mag !== gl.NEAREST)) no("linear filter");
        const wrap = (v, n, m) => (fetch ? v : m === gl.REPEAT ? ((Math.floor(v * n) % n) + n) % n : Math.min(Math.max(Math.floor(v * n), 0), n - 1));
        return im.texels[wrap(t, im.h, x.t) * im.w + wrap(s, im.w, x.s)].slice();
      };
      const verts = [];
      for (let k = first; k < first + count; k++) {
        const g = { ...at, gl_Position: [0, 0, 0, 1], gl_PointSize: 1, gl_VertexID: k };
        program.attribs.forEach((d, l) => {
          const a = attribs[l];
          const n = TYPES[d.type];
          const v = [0, 0, 0, 1];
          if (a?.on) for (let c = 0; c < a.size; c++) v[c] = a.buffer.data[(a.offset + k * a.stride) / 4 + c];
          g[d.name] = n === 1 ? v[0] : v.slice(0, n);
        });
        verts.push(execute(vs.prog, g, sample));
      }
      const tris = [];
      if (mode === gl.TRIANGLES) for (let k = 0; k + 2 < count; k += 3) tris.push([k, k + 1, k + 2]);
      else if (mode === gl.TRIANGLE_STRIP) for (let k = 0; k + 2 < count; k++) tris.push([k, k + 1, k + 2]);
      else if (mode === gl.TRIANGLE_FAN) for (let k = 1; k + 1 < count; k++) tris.push([0, k, k + 1]);
      else no("primitive");
      const p = pixels();
      const vp = viewport ?? { x: 0, y: 0, w: 300, h: 150 };
      const pos = verts.map((v) => [vp.x + (v.gl_Position[0] / v.gl_Position[3] + 1) / 2 * vp.w, vp.y + (v.gl_Position[1] / v.gl_Position[3] + 1) / 2 * vp.h]);
      const varyings = fs.prog.globals.filter((d) => d.q.includes("varying") || d.q.includes("in"));
      const outs = fs.prog.globals.filter((d) => d.q.includes("out") && d.type === "vec4");
      for (let py = 0; py < p.h; py++) for (let px = 0; px < p.w; px++) {
        const [x, y] = [px + 0.5, py + 0.5];
        if (x < vp.x || y < vp.y || x > vp.x + vp.w || y > vp.y + vp.h) continue;
        for (const [a, b, c] of tris) {
          const [A, B, C] = [pos[a], pos[b], pos[c]];
          const area = (B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1]);
          if (area === 0) continue;
          const wb = ((x - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (y - A[1])) / area;
          const wc = ((B[0] - A[0]) * (y - A[1]) - (x - A[0]) * (B[1] - A[1])) / area;
          const wa = 1 - wb - wc;
          if (Math.min(wa, wb, wc) < -1e-9) continue;
          const g = { ...at, gl_FragCoord: [x, y, 0, 1], gl_FragColor: [0, 0, 0, 0] };
          for (const d of varyings) {
            const [u, v, w] = [a, b, c].map((k) => arr(verts[k][d.name] ?? no("varying " + d.name)));
            g[d.name] = num(u.map((_, k) => wa * u[k] + wb * v[k] + wc * w[k]));
          }
          const r = execute(fs.prog, g, sample);
          const col = outs.length ? r[outs[0].name] : r.gl_FragColor;
          // What is undefined (0 / 0, log(-1)) may become any colour: one that nothing else has.
          const undef = col.some(Number.isNaN);
          for (let k = 0; k < 4; k++) p.data[4 * ((p.h - 1 - py) * p.w + px) + k] = undef ? [255, 0, 255, 255][k] : Math.round(Math.min(1, Math.max(0, col[k])) * 255);
          break;
        }
      }
    },
  };
  for (const [n, k] of [["uniform1f", 1], ["uniform1i", 1], ["uniform2f", 2], ["uniform3f", 3], ["uniform4f", 4], ["uniform2i", 2]])
    F[n] = (l, ...v) => { if (l) l.p.uniforms[l.n] = k === 1 ? v[0] : v.slice(0, k); };
  for (const n of ["uniform1fv", "uniform2fv", "uniform3fv", "uniform4fv"]) F[n] = (l, v) => { if (l) l.p.uniforms[l.n] = num(Array.from(v)); };
  return new Proxy(Object.assign(gl, F), {
    get(o, k) {
      if (k in o || typeof k === "symbol") return o[k];
      if (/^[A-Z0-9_]+$/.test(k)) return undefined; // a constant of another version
      return k === "createVertexArray" && !two ? undefined : no("gl." + String(k));
    },
  });
}
