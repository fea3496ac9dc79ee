// Simulation core: one seeded PRNG, one event queue, one clock. Everything the
// SDK can observe that is not a pure function of its arguments (network, time,
// timers, randomness, environment, console, blob I/O, the optional React
// renderer) is replaced by this file and net.mjs.
import { AsyncLocalStorage } from 'node:async_hooks';
import { inspect } from 'node:util';

export const real = {
  setImmediate: globalThis.setImmediate,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  clearImmediate: globalThis.clearImmediate,
  Date: globalThis.Date,
  fetch: globalThis.fetch,
  Request: globalThis.Request,
  Response: globalThis.Response,
  Headers: globalThis.Headers,
  FormData: globalThis.FormData,
  Blob: globalThis.Blob,
  ReadableStream: globalThis.ReadableStream,
  random: Math.random,
  randomUUID: globalThis.crypto.randomUUID,
  getRandomValues: globalThis.crypto.getRandomValues,
  abortTimeout: AbortSignal.timeout,
  console: { ...console },
  perfNow: performance.now.bind(performance),
  stderrWrite: process.stderr.write.bind(process.stderr),
};

// ---------------------------------------------------------------- PRNG
export function hashStr(s, h = 0x811c9dc5) {
  for (let i = 0; i < s.length; i++) {
    h ^= s.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  h ^= h >>> 15;
  h = Math.imul(h, 0x2c1b3c6d);
  h ^= h >>> 12;
  h = Math.imul(h, 0x297a2d39);
  h ^= h >>> 15;
  return h >>> 0;
}

export class Rng {
  constructor(...labels) {
    const s = labels.join('|');
    this.s = [hashStr(s, 1), hashStr(s, 2), hashStr(s, 3), hashStr(s, 4) | 1];
    for (let i = 0; i < 8; i++) this.u32();
  }
  u32() {
    // xoshiro128**
    const s = this.s;
    const r = Math.imul(((Math.imul(s[1], 5) << 7) | (Math.imul(s[1], 5) >>> 25)), 9) >>> 0;
    const t = s[1] << 9;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = (s[3] << 11) | (s[3] >>> 21);
    return r;
  }
  float() {
    return this.u32() / 4294967296;
  }
  int(n) {
    return Math.floor(this.float() * n);
  }
  range(a, b) {
    return a + this.int(b - a + 1);
  }
  chance(p) {
    return this.float() < p;
  }
  pick(arr) {
    return arr[this.int(arr.length)];
  }
  weighted(pairs) {
    let tot = 0;
    for (const [, w] of pairs) tot += w;
    let x = this.float() * tot;
    for (const [v, w] of pairs) {
      x -= w;
      if (x < 0) return v;
    }
    return pairs[pairs.length - 1][0];
  }
  shuffle(arr) {
    const a = arr.slice();
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  sample(arr, n) {
    return this.shuffle(arr).slice(0, n);
  }
}

// ---------------------------------------------------------------- event queue
class Heap {
  constructor() {
    this.a = [];
  }
  get size() {
    return this.a.length;
  }
  less(i, j) {
    const x = this.a[i];
    const y = this.a[j];
    return x.at < y.at || (x.at === y.at && x.seq < y.seq);
  }
  push(e) {
    const a = this.a;
    a.push(e);
    let i = a.length - 1;
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (!this.less(i, p)) break;
      [a[i], a[p]] = [a[p], a[i]];
      i = p;
    }
  }
  pop() {
    const a = this.a;
    const top = a[0];
    const last = a.pop();
    if (a.length) {
      a[0] = last;
      let i = 0;
      for (;;) {
        const l = 2 * i + 1;
        const r = l + 1;
        let m = i;
        if (l < a.length && this.less(l, m)) m = l;
        if (r < a.length && this.less(r, m)) m = r;
        if (m === i) break;
        [a[i], a[m]] = [a[m], a[i]];
        i = m;
      }
    }
    return top;
  }
}

export const als = new AsyncLocalStorage();
let current = null;
export const cur = () => current;

export class StepLimit extends Error {}

export class Sim {
  // plan.trace: every random decision taken while the run proceeds, by key, so
  // that a run can be replayed and shrunk without re-deriving it from the seed.
  constructor(plan) {
    this.plan = plan;
    this.seed = plan.seed;
    this.now = plan.config?.epoch ?? 1_700_000_000_000;
    this.start = this.now;
    this.skew = 0; // wall clock minus simulated time
    this.q = new Heap();
    this.seq = 0;
    this.steps = 0;
    this.maxSteps = plan.config?.maxSteps ?? 20000 + 400 * plan.tasks.reduce((n, t) => n + t.steps.length, 0);
    this.log = [];
    this.shape = [];
    this.timers = new Map();
    this.timerSeq = 0;
    this.timersUsed = 0;
    this.barriers = [];
    this.logs = []; // captured console output
    this.rnd = new Rng(plan.seed, 'globals');
    this.faults = {};
    this.probes = {};
    this.rejections = [];
  }
  count(kind) {
    this.faults[kind] = (this.faults[kind] ?? 0) + 1;
  }
  probe(kind) {
    this.probes[kind] = (this.probes[kind] ?? 0) + 1;
  }
  decide(key, fn, dflt) {
    const tr = this.plan.trace;
    if (Object.hasOwn(tr, key)) return tr[key];
    if (this.plan.frozen) return dflt;
    const v = fn(new Rng(this.seed, key));
    tr[key] = v;
    return v;
  }
  at(delay, fn, label) {
    this.q.push({ at: this.now + Math.max(0, delay), seq: this.seq++, fn, label });
  }
  note(line, shape) {
    this.log.push(`${(this.now - this.start).toFixed(3)} ${line}`);
    if (shape) this.shape.push(shape);
  }
  drain() {
    return new Promise((r) => real.setImmediate(r));
  }
  async settle() {
    await this.drain();
    while (this.barriers.length) {
      const b = this.barriers;
      this.barriers = [];
      await Promise.allSettled(b);
      await this.drain();
    }
  }
  async run() {
    await this.settle();
    while (this.q.size) {
      if (++this.steps > this.maxSteps) throw new StepLimit('step limit');
      const e = this.q.pop();
      this.now = e.at;
      als.exit(e.fn);
      await this.settle();
    }
  }
  digest() {
    let a = 0x811c9dc5;
    let b = 7;
    for (const l of this.log) {
      a = hashStr(l, a);
      b = hashStr(l, b ^ a);
    }
    return a.toString(16).padStart(8, '0') + b.toString(16).padStart(8, '0');
  }
}

// ---------------------------------------------------------------- global seams
export class SimBlob extends real.Blob {
  // In-memory copy: node's Blob reads through native asynchronous code, whose
  // completion order the simulator would not own.
  #bytes;
  constructor(parts = [], opts = {}) {
    super(parts, opts);
    const bufs = [];
    for (const p of parts) {
      if (p instanceof SimBlob) bufs.push(p.#bytes);
      else if (typeof p === 'string') bufs.push(Buffer.from(p));
      else if (p instanceof ArrayBuffer) bufs.push(Buffer.from(p));
      else if (ArrayBuffer.isView(p)) bufs.push(Buffer.from(p.buffer, p.byteOffset, p.byteLength));
      else bufs.push(Buffer.from(String(p)));
    }
    this.#bytes = Buffer.concat(bufs);
  }
  async arrayBuffer() {
    return new Uint8Array(this.#bytes).buffer;
  }
  async text() {
    return this.#bytes.toString('utf8');
  }
  async bytes() {
    return new Uint8Array(this.#bytes);
  }
}

class SimDate extends real.Date {
  constructor(...a) {
    if (a.length === 0 && current) super(current.now + current.skew);
    else super(...a);
  }
  static now() {
    return current ? Math.floor(current.now + current.skew) : real.Date.now();
  }
}

function addTimer(kind, fn, ms, args, repeat) {
  const s = current;
  const id = ++s.timerSeq;
  s.timersUsed++;
  const ctx = als.getStore();
  const handle = {
    id,
    ref() { t.unref = false; return handle; },
    unref() { t.unref = true; return handle; },
    hasRef() { return !t.unref; },
    refresh() { return handle; },
    [Symbol.toPrimitive]() { return id; },
    [Symbol.dispose]() { s.timers.delete(id); },
  };
  const t = { fn, args, ctx };
  s.timers.set(id, t);
  const arm = () =>
    s.at(Math.max(kind === 'immediate' ? 0 : 1, Number(ms) || 0), () => {
      if (!s.timers.has(id)) return;
      if (!repeat) s.timers.delete(id);
      s.note(`timer ${kind}`, 'T');
      als.run(ctx, () => fn(...args));
      if (repeat && s.timers.has(id)) arm();
    }, 'timer');
  arm();
  return handle;
}
const clear = (h) => {
  if (h && current) current.timers.delete(typeof h === 'object' ? h.id : h);
};

export const hooks = { fetch: null };
let installed = false;
const unhandled = (e) => {
  if (current) current.rejections.push(String(e?.message ?? e));
};

export function install() {
  if (installed) return;
  installed = true;
  globalThis.fetch = function fetch(...a) {
    if (!current) return real.fetch(...a);
    return hooks.fetch(...a);
  };
  globalThis.setTimeout = function setTimeout(fn, ms, ...args) {
    return current ? addTimer('timeout', fn, ms, args, false) : real.setTimeout(fn, ms, ...args);
  };
  globalThis.setInterval = function setInterval(fn, ms, ...args) {
    return current ? addTimer('interval', fn, ms, args, true) : real.setInterval(fn, ms, ...args);
  };
  globalThis.setImmediate = function setImmediate(fn, ...args) {
    return current ? addTimer('immediate', fn, 0, args, false) : real.setImmediate(fn, ...args);
  };
  for (const k of ['clearTimeout', 'clearInterval', 'clearImmediate']) {
    globalThis[k] = (h) => (current ? clear(h) : real[k](h));
  }
  globalThis.Date = SimDate;
  globalThis.Blob = SimBlob;
  Math.random = () => (current ? current.rnd.float() : real.random());
  globalThis.crypto.randomUUID = () => {
    if (!current) return real.randomUUID.call(globalThis.crypto);
    const h = () => current.rnd.u32().toString(16).padStart(8, '0');
    const s = h() + h() + h() + h();
    return `${s.slice(0, 8)}-${s.slice(8, 12)}-4${s.slice(13, 16)}-a${s.slice(17, 20)}-${s.slice(20)}`;
  };
  globalThis.crypto.getRandomValues = (arr) => {
    if (!current) return real.getRandomValues.call(globalThis.crypto, arr);
    const u = new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength);
    for (let i = 0; i < u.length; i++) u[i] = current.rnd.int(256);
    return arr;
  };
  const hr = process.hrtime;
  process.hrtime = (prev) => {
    if (!current) return hr(prev);
    const ns = BigInt(Math.round((current.now - current.start) * 1e6)) - (prev ? BigInt(prev[0]) * 1_000_000_000n + BigInt(prev[1]) : 0n);
    return [Number(ns / 1_000_000_000n), Number(ns % 1_000_000_000n)];
  };
  process.hrtime.bigint = () => (current ? BigInt(Math.round((current.now - current.start) * 1e6)) : hr.bigint());
  const up = process.uptime;
  process.uptime = () => (current ? (current.now - current.start) / 1000 : up());
  performance.now = () => (current ? current.now - current.start : real.perfNow());
  AbortSignal.timeout = (ms) => {
    if (!current) return real.abortTimeout.call(AbortSignal, ms);
    const c = new AbortController();
    addTimer('timeout', () => c.abort(new DOMException('The operation timed out.', 'TimeoutError')), ms, [], false).unref();
    return c.signal;
  };
  for (const k of ['log', 'error', 'warn', 'info', 'debug', 'trace', 'dir', 'table']) {
    console[k] = (...a) => {
      if (!current) return real.console[k].apply(console, a);
      current.logs.push({ level: k, args: a, text: printed(a), op: als.getStore()?.id ?? null, at: current.now });
      current.note(`console.${k}`, 'L');
    };
  }
  // The SDK's own lines on the process's streams are log lines like any other;
  // whatever the runtime itself has to say is not.
  const streams = [['stdout', process.stdout, 'write'], ['stderr', process.stderr, 'write'], ['warning', process, 'emitWarning']];
  for (const [level, o, k] of streams) {
    const own = o[k];
    o[k] = function (...a) {
      if (!current || !/\/sdk\.cjs[:)]/.test(new Error().stack)) return own.apply(o, a);
      current.logs.push({ level, args: a.map((x) => (x instanceof Uint8Array ? Buffer.from(x).toString() : x)), text: printed(a), op: als.getStore()?.id ?? null, at: current.now });
      current.note(`process.${level}`, 'L');
      for (const f of a) if (typeof f === 'function' && k === 'write') queueMicrotask(f);
      return true;
    };
  }
  process.on('unhandledRejection', unhandled);
}

// What a console (or any other logger) would show of a value.
export const printed = (v) => inspect(v, { depth: 8, maxStringLength: Infinity, maxArrayLength: 300, breakLength: Infinity });

const ENV_KEYS = ['RESEND_API_KEY', 'RESEND_BASE_URL', 'RESEND_USER_AGENT', 'NODE_ENV'];
export function setEnv(env) {
  for (const k of ENV_KEYS) {
    if (env[k] === undefined || env[k] === null) delete process.env[k];
    else process.env[k] = env[k];
  }
}

export async function withSim(sim, body) {
  const saved = {};
  const extra = Object.entries(sim.plan.dict?.env ?? {});
  for (const k of [...ENV_KEYS, ...extra.map(([n]) => n)]) saved[k] = process.env[k];
  current = sim;
  try {
    setEnv(sim.plan.config?.env ?? { NODE_ENV: 'test' });
    for (const [k, v] of extra) process.env[k] = v;
    return await body();
  } finally {
    current = null;
    setEnv(saved);
    for (const [k] of extra) if (saved[k] === undefined) delete process.env[k]; else process.env[k] = saved[k];
  }
}
