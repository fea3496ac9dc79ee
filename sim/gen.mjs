// Value generators. Everything generated is JSON (so that a plan can be saved,
// shrunk and replayed); values JSON cannot hold are written as {"$": tag, ...}
// and turned into live values by decode().
import { SimBlob, real } from './core.mjs';
import { D, dnum, dstr, dtime, PLAIN, PRINTABLE, TOKEN } from './dict.mjs';

const WORDS = ['alpha', 'Bravo', 'ceremony', 'delta wing', 'écho', 'f', 'Golf & Hotel', 'india/juliet', 'kilo=1', 'lima?x', 'mike#tag', '100%', '%41', '%zz', 'a+b', '東京', '🚀✨', 'שלום', 'line\nbreak', 'tab\there', '"quoted"', "it's", '\\back\\slash', '<b>html</b>', '\u0000nul', '\u2028sep', ' lead', 'trail ', 'null', 'undefined', '0', 'false', '__proto__', 'constructor', 'toString', '{{{name}}}', '${x}', '%s%d', '..x', 'ﬃ', 'e\u0301', 'İi', 'cr\r\nlf', '\ufeffbom', 'zero\u200bwidth', 'nb\u00a0sp', '👩‍👩‍👧', '&amp;', 'a,b;c', 'two  spaces', 'Ünï <ü@x.co>', "'; DROP", '{"json":1}', '[x]', '1e3', '007', 'true', 'A\u030angstr\u00f6m \u212b', '\u1100\u1161', 'ｆｕｌｌ', 'ß ſ', 'dot.', 'a,b', 'https://x.example/?a=1#b', '2026-01-01', 'NaN', 'off', '-1', 'Fwd: x', 'a|b', '{{x}}', '\u0007', '\u00ad', '%20', '+1'];
const IDCH = '0123456789abcdef';

export class Gen {
  constructor(rng, opt = {}) {
    this.r = rng;
    this.wild = opt.wild ?? 0.5; // how often text is hostile
    this.wildId = opt.wildId ?? 0;
    this.undef = opt.undef ?? 0.15; // how often an omitted field is written as undefined
    this.scale = opt.scale ?? 1;
    this.react = opt.react ?? 0;
    this.opts = opt.opts ?? 0.4;
    this.invalid = opt.invalid ?? 0.08; // locally rejected calls
    this.pool = opt.pool ?? null; // ids reused across calls
    this.nreact = 0;
    this.tag = opt.tag ?? '';
    this.past = { id: [], email: [], text: [] };
  }
  // Values that occur twice in one workload: in two fields, two calls.
  twice(kind, make) {
    const p = this.past[kind];
    if (p.length && this.chance(0.07)) return this.r.chance(0.6) ? p.at(-1) : this.pick(p);
    const v = make();
    p.push(v);
    if (p.length > 6) p.shift();
    return v;
  }
  bool() { return this.r.chance(0.5); }
  chance(p) { return this.r.chance(p); }
  pick(a) { return this.r.pick(a); }
  int(a, b) { return this.r.range(a, b); }
  hex(n) {
    let s = '';
    for (let i = 0; i < n; i++) s += IDCH[this.r.int(16)];
    return s;
  }
  uuid() { return `${this.hex(8)}-${this.hex(4)}-4${this.hex(3)}-a${this.hex(3)}-${this.hex(12)}`; }
  // A server-issued id.
  id() { return this.twice('id', () => this.id1()); }
  id1() {
    if (this.pool?.length && this.chance(0.5)) return this.pick(this.pool);
    const d = dstr(this.r, 0.12, (s) => PLAIN.test(s));
    if (d !== null) return d;
    const n = dnum(this.r, 0.05, 1, 400);
    if (n !== null) return this.hex(n);
    return this.pick([() => this.uuid(), () => this.uuid(), () => `id_${this.hex(6)}`, () => this.hex(1), () => `${this.pick(['Ab', 'cD', 'X'])}_${this.hex(4)}-${this.pick(['Q', 'zZ', '0'])}`])();
  }
  // An id or an address that is only a value in a body: whatever the caller has.
  bodyId() { return this.wild && this.r.chance(0.14) ? this.odd() : this.id(); }
  odd() { return this.r.chance(0.4) ? this.r.pick(['', '', ' padded', 'padded ', '0', '\tt']) : this.text(); }
  addr() { return this.wild && this.r.chance(0.12) ? this.odd() : this.email(); }
  text() { return this.twice('text', () => this.text1()); }
  text1() {
    const r = this.r;
    if (D.on && this.wild) {
      const d = dstr(r, 0.25);
      if (d !== null) return d;
      const n = dnum(r, 0.06, 0, 60_000);
      if (n !== null) return r.pick(['L', 'é', 'word ']).repeat(n).slice(0, n);
    }
    if (!r.chance(this.wild)) return this.pick(['Hello', 'Welcome aboard', 'Acme', 'x', `t-${this.hex(4)}`]);
    const k = r.int(8);
    if (k === 0) return '';
    if (k === 1) return 'L'.repeat(r.pick([200, 2000, 20000]) * this.scale);
    let s = '';
    const n = 1 + r.int(4);
    for (let i = 0; i < n; i++) s += this.pick(WORDS) + (r.chance(0.3) ? ' ' : '');
    return s;
  }
  name() { return this.text() || 'n'; }
  // A key of a map whose keys are the caller's, among them the names that mean
  // something to JavaScript objects.
  key(...usual) {
    if (usual.length && !this.chance(0.12)) return this.pick(usual);
    return this.pick(['__proto__', 'constructor', 'toString', 'valueOf', 'hasOwnProperty', 'length', '0', 'then', 'prototype', '$', 'name']);
  }
  email() { return this.twice('email', () => this.email1()); }
  email1() {
    const r = this.r;
    if (this.pool && r.chance(0.3)) return `shared@example.com`;
    const d = dstr(r, 0.1, (s) => /^[A-Za-z0-9][A-Za-z0-9.-]{0,60}$/.test(s));
    if (d !== null) return /^[A-Za-z0-9-]+\.[a-z.]+$/.test(d) ? `user@${d}` : r.chance(0.7) ? `${d}@example.com` : `user@${d}.example.com`;
    return r.weighted([
      [`user${r.int(1000)}@example.com`, 6],
      [`first.last+tag${r.int(9)}@sub.example.co.uk`, 3],
      [`o'brien${r.int(9)}@example.ie`, 1],
      [`UPPER${r.int(9)}@Example.COM`, 1],
      [r.pick([`root${r.int(9)}@localhost`, 'postmaster@[192.0.2.1]', '"two words"@example.com', 'müller@exämple.de', 'a@b.c', 'x_y-z@xn--exmple-cua.de', '1234567890@example.com', '%user@example.com', 'a/b@example.com', 'who?@example.com']), 1],
    ]);
  }
  // An identifier the caller chose: anything that is not empty, '.' or '..'.
  ident(plain) {
    const r = this.r;
    if (!r.chance(this.wildId)) return plain ? plain() : this.id();
    const pieces = ['#', '?', '/', '%', '%2F', '%23', '&', '=', '+', ' ', '@', ':', ';', ',', '$', '!', '*', '(', ')', "'", '~', '.', '..', '%40', '%2B', '%3F', '%25', '@b.co', '-', '_', '\\', '"', '<', '>', '^', '`', '{', '|', '}', '[', ']', 'é', 'e\u0301', '\u212b', 'ﬁ', 'ß', 'I', '東', '%2f', '%C3%A9', '\u00a0', 'index', ',', '0', '🚀', '\t', '\n', 'a', 'B', '7', 'x.y', 'api/v1', '?limit=1', '#frag', '../', './'];
    let s = '';
    const n = 1 + r.int(7);
    for (let i = 0; i < n; i++) s += dstr(r, 0.2) ?? this.pick(pieces);
    if (r.chance(0.5)) s = `${this.pick(['user', 'order.created', 'my-template', ''])}${s}`;
    if (r.chance(0.4)) s = `${s}${this.pick(['@example.com', '-end', '/tail'])}`;
    if (D.on && r.chance(0.15)) s = dstr(r, 1) ?? s;
    if (r.chance(0.05)) s += 'l'.repeat(r.pick([60, 130, 250, 260, 520, 1030, 2100]));
    const len = dnum(r, 0.1, 1, 3000);
    if (len !== null) s = s.padEnd(len, 'n');
    if (/^\.{0,2}$/.test(s)) s = `x${s}x`;
    return s;
  }
  contactEmail() {
    return this.ident(() => this.email());
  }
  to() {
    const n = this.r.weighted([[1, 5], [2, 2], [50, 0.1 * this.scale], [51, 0.1 * this.scale], [120, 0.05 * this.scale], [0, 0.2]]);
    const m = dnum(this.r, 0.1, 0, 300);
    if (m !== null) return Array.from({ length: m }, () => this.addr());
    if (n === 1 && this.bool()) return this.chance(0.3) ? `${this.text()} <${this.email()}>` : this.addr();
    const l = Array.from({ length: n }, () => this.addr());
    if (n && this.chance(0.1)) l.push(this.pick(l));
    return l;
  }
  date() { return this.pick(['2026-09-01T10:00:00.000Z', 'in 1 min', 'tomorrow at 9am', '2026-12-31', this.odd()]); }
  json(depth = 2, rich = false) {
    const r = this.r;
    // Values that become text only when they are written out.
    if (rich && r.chance(0.05)) return { $: 'date', t: r.pick([0, 1e12, 1767225599999]) };
    const k = r.int(depth > 0 ? 9 : 6);
    switch (k) {
      case 0: return null;
      case 1: return r.chance(0.5);
      case 2: return r.pick([0, -1, 1, 3.14, 1e21, 9007199254740991, -0.000001, 42]);
      case 3: case 4: return this.text();
      case 5: return '';
      case 6: return Array.from({ length: r.int(4) }, () => this.json(depth - 1, rich));
      default: {
        const o = {};
        const n = r.int(4);
        for (let i = 0; i < n; i++) Object.defineProperty(o, dstr(r, 0.3, (s) => s !== 'toJSON') ?? this.key('id', 'createdAt', 'created_at', 'first_name', 'data', 'error', 'é', 'a.b', 'x-y', 'Key', 'nested'), { value: this.json(depth - 1, rich), enumerable: true, configurable: true, writable: true });
        return o;
      }
    }
  }
  // {field: generator}: a leading "?" marks an optional field.
  obj(fields, p = 0.45) {
    const o = {};
    for (const [k, f] of Object.entries(fields)) {
      if (k[0] === '?') {
        if (this.chance(p)) o[k.slice(1)] = f();
        else if (this.chance(this.undef)) o[k.slice(1)] = { $: 'undef' };
      } else o[k] = f();
    }
    // The order fields are written in must never matter.
    if (this.chance(0.3)) {
      const e = this.r.shuffle(Object.entries(o));
      return Object.fromEntries(e);
    }
    return o;
  }
  // Lists are short, now and then beyond every round number.
  list(f, max = 4) {
    const n = dnum(this.r, 0.12, 0, 300) ?? (this.r.chance(0.02 * this.scale) ? this.r.pick([9, 17, 33, 51, 101, 130]) : this.r.int(max + 1));
    const l = Array.from({ length: n }, () => f());
    // The same entry twice.
    if (n && this.chance(0.08)) l.splice(this.r.int(n + 1), 0, structuredClone(this.pick(l)));
    return l;
  }
  // A value of a documented set; the API may know more of them than we do.
  oneOf(values) { return dstr(this.r, 0.12, (s) => s !== '') ?? (this.r.chance(0.06) ? this.r.pick(['new_value', 'in progress', 'ALL CAPS', 'a&b=c', 'x+y', 'é', 'a,b', '100%', ' ']) : this.r.pick(values)); }
  reactNode(opt = {}) {
    const n = ++this.nreact;
    const r = this.r;
    const node = { $: 'react', id: `${this.tag}r${n}-${this.hex(4)}`, html: `<p>${this.tag}${n}-${this.hex(6)} ${this.chance(0.3) ? this.text() : ''}</p>`, delay: dtime(r, 0.1, 3_600_000) ?? r.pick([0, 0, 1, 5, 50, 500, 5000]) + (r.chance(0.5) ? r.int(1000) / 1000 : 0) };
    // Renderers lay their output out as they like.
    if (r.chance(0.15)) node.html = r.pick([(h) => `\n${h}\n`, (h) => `<!DOCTYPE html>\n<html><body>${h}</body></html>\r\n`, (h) => `  ${h}\t `, (h) => `<!-- note -->${h}<!--$-->`, (h) => `\ufeff${h}`, (h) => h.repeat(500), (h) => `${h}&nbsp;&amp;<br/>\u200b`])(node.html);
    if (r.chance(opt.fail ?? 0.06)) node.fail = r.pick(['throw', 'reject', 'string']);
    if (r.chance(0.05)) node.html = '';
    return node;
  }
  headersInit() {
    const r = this.r;
    const pairs = [];
    const n = 1 + r.int(3);
    const names = ['X-Custom', 'x-trace-id', 'X-Entity-Ref-ID', 'Accept', 'User-Agent', 'AUTHORIZATION', 'content-type', 'X-Batch-Validation', 'traceparent', 'X-Empty', 'Idempotency-Key', 'Cookie', 'Accept-Language', 'x-forwarded-for', 'If-Match', 'X-Long', 'Prefer', ...(r.chance(0.2) ? ['constructor', 'toString', '__proto__', 'valueOf', 'length', 'x_under_score', 'then', '0'] : [])];
    const used = new Set();
    for (let i = 0; i < n; i++) {
      const name = dstr(r, 0.15, (s) => TOKEN.test(s) && !/^(host|content-length|connection|transfer-encoding|upgrade|expect|te|trailer|keep-alive|set-cookie|content-encoding|date|via|origin|referer)$/i.test(s)) ?? r.pick(names);
      if (used.has(name.toLowerCase())) continue;
      used.add(name.toLowerCase());
      let v = `v${r.int(1000)}`;
      const l = name.toLowerCase();
      if (l === 'authorization') v = `Bearer re_override_${this.hex(4)}`;
      if (l === 'content-type') v = 'application/vnd.api+json';
      if (l === 'x-batch-validation') v = r.pick(r.chance(0.3) ? ['Permissive', 'STRICT', 'lenient', ''] : ['strict', 'permissive']);
      if (l === 'x-empty') v = '';
      if (l === 'x-long') v = 'z'.repeat(r.pick([1, 300, 2000]));
      if (l === 'x-custom' && r.chance(0.2)) v = r.pick(['a, b', 'a;q=0.5', '"quoted"', 'caf\u00e9', 'a=b; c=d', '0', 'null']);
      const d = !['authorization', 'content-type', 'x-batch-validation'].includes(l) ? dstr(r, 0.2, (s) => PRINTABLE.test(s)) : null;
      if (d !== null) v = d;
      pairs.push([r.chance(0.3) ? name.toUpperCase() : name, v]);
    }
    const form = r.pick(['object', 'object', 'headers', 'tuples']);
    // One name twice: fetch joins the values.
    if (form !== 'object' && r.chance(0.15)) {
      const [name, v] = r.pick(pairs);
      if (!['authorization', 'content-type', 'x-batch-validation', 'idempotency-key', 'user-agent'].includes(name.toLowerCase())) pairs.push([r.chance(0.5) ? name.toUpperCase() : name, `${v}-again`]);
    }
    else if (r.chance(0.1)) {
      const [name, v] = r.pick(pairs);
      const other = r.pick([name.toUpperCase(), name.toLowerCase()]);
      if (other !== name && !['authorization', 'content-type', 'x-batch-validation', 'idempotency-key', 'user-agent'].includes(name.toLowerCase())) pairs.push([other, `${v}-other`]);
    }
    if (form === 'object') return Object.fromEntries(pairs);
    return { $: form, pairs };
  }
  reqOpts({ idem = false, batch = false, headers = true } = {}) {
    if (!this.chance(this.opts)) return undefined;
    const o = {};
    if (idem && this.chance(0.6)) o.idempotencyKey = dstr(this.r, 0.15, (s) => PRINTABLE.test(s)) ?? this.pick([`key-${this.hex(8)}`, `order/${this.hex(4)}/welcome`, 'K', `${this.uuid()}`, `k ${this.hex(2)} spaced`, `${'k'.repeat(this.pick([60, 120, 248]))}${this.hex(6)}`, `UPPER-${this.hex(4)}`, `ü-${this.hex(4)}`, `tenant/${this.hex(4)}/`, `${this.hex(4)}=`, `a,b;${this.hex(3)}.`, `"${this.hex(4)}"`, '0', 'undefined', `${this.hex(2)}%20${this.hex(2)}`]);
    if (batch && this.chance(0.6)) o.batchValidation = this.pick(['strict', 'permissive']);
    if (headers && this.chance(0.4)) o.headers = this.headersInit();
    return o;
  }
  page(extra = {}) {
    const o = {};
    if (this.chance(0.5)) o.limit = dnum(this.r, 0.25, 1, 100_000) ?? this.pick([1, 2, 10, 100, 99, 20, 50, 101, 500, 1000]);
    const k = this.r.int(3);
    const cur = () => this.ident(() => this.id());
    if (k === 1) o.after = cur();
    if (k === 2) o.before = cur();
    // What is not asked for, written out.
    for (const f of ['limit', 'after', 'before']) if (!(f in o) && this.chance(this.undef / 2)) o[f] = { $: 'undef' };
    for (const [f, fn] of Object.entries(extra)) {
      if (this.chance(0.5)) o[f] = fn();
      else if (this.chance(this.undef)) o[f] = { $: 'undef' };
    }
    return o;
  }
}

const toBytes = (b64) => new Uint8Array(Buffer.from(b64, 'base64'));

export function decode(v, env = {}) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map((x) => decode(x, env));
  if (typeof v.$ === 'string') {
    switch (v.$) {
      case 'undef': return undefined;
      case 'buf': return v.n ? Buffer.alloc(v.n, Buffer.from(v.hex, 'hex')) : Buffer.from(v.b64, 'base64');
      case 'date': if (Number.isFinite(v.t)) return new Date(v.t); break;
      case 'blob': {
        if (v.name !== undefined) {
          const f = new SimFile([toBytes(v.b64)], v.name, { type: v.type ?? '' });
          return f;
        }
        return new SimBlob([toBytes(v.b64)], { type: v.type ?? '' });
      }
      case 'react': return env.react ? env.react(v) : { type: 'SimComponent', props: { sim: v } };
      case 'headers': return new real.Headers(v.pairs);
      case 'tuples': return v.pairs.map((p) => p.slice());
      default: // a field that happens to be called so
    }
  }
  const o = {};
  for (const [k, x] of Object.entries(v)) {
    const d = decode(x, env);
    if (k === '__proto__') Object.defineProperty(o, k, { value: d, enumerable: true, configurable: true, writable: true });
    else o[k] = d;
  }
  return o;
}

export class SimFile extends File {
  #bytes;
  constructor(parts, name, opts = {}) {
    super(parts, name, { ...opts, lastModified: 0 });
    this.#bytes = Buffer.concat(parts.map((p) => Buffer.from(p)));
  }
  async arrayBuffer() { return new Uint8Array(this.#bytes).buffer; }
  async text() { return this.#bytes.toString('utf8'); }
  async bytes() { return new Uint8Array(this.#bytes); }
}

// Canonical JSON: what a server sees, independent of key order.
export function canon(v) {
  if (v === undefined) return 'undefined';
  if (v === null || typeof v !== 'object') return JSON.stringify(v);
  if (Array.isArray(v)) return `[${v.map((x) => canon(x === undefined ? null : x)).join(',')}]`;
  return `{${Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => `${JSON.stringify(k)}:${canon(v[k])}`).join(',')}}`;
}
// JSON round trip, so that both sides have been through the same lossy encoding.
export const viaJson = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
export const sameJson = (a, b) => canon(a) === canon(b);
export const short = (v, n = 300) => {
  let s;
  try { s = typeof v === 'string' ? v : JSON.stringify(v); } catch { s = String(v); }
  if (s === undefined) s = 'undefined';
  return s.length > n ? `${s.slice(0, n)}…(${s.length})` : s;
};
