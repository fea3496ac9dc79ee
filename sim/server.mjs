// Simulated servers.
//  EchoServer: answers every request with a fresh success body of the shape the
//  endpoint documents, carrying markers unique to that very exchange.
//  Download hosts and routing are shared with the stateful models.
import { API } from './api.mjs';
import { hashStr, Rng } from './core.mjs';
import { D, dnum, dstr } from './dict.mjs';
import { rawEmail } from './mime.mjs';

const JSONH = { 'content-type': 'application/json; charset=utf-8' };

// Shape of a success body by method name or by route. Routes are matched on the
// decoded path segments; "*" matches one segment.
const ROUTES = [
  ['GET', ['emails'], 'list'], ['GET', ['emails', 'metrics'], 'obj'], ['GET', ['emails', 'receiving'], 'list'],
  ['GET', ['emails', 'receiving', '*'], 'recv'], ['GET', ['emails', '*', 'attachments'], 'list'],
  ['GET', ['emails', 'receiving', '*', 'attachments'], 'list'], ['POST', ['emails', 'batch'], 'batch'],
  ['GET', ['contact-properties'], 'cplist'], ['GET', ['contact-properties', '*'], 'cp'],
];
for (const s of ['broadcasts', 'templates', 'webhooks', 'contacts', 'domains', 'api-keys', 'events', 'logs', 'segments', 'suppressions', 'topics', 'automations']) ROUTES.push(['GET', [s], 'list']);
ROUTES.push(['GET', ['oauth', 'grants'], 'list'], ['GET', ['contacts', 'imports'], 'list'], ['GET', ['contacts', '*', 'segments'], 'list'], ['GET', ['contacts', '*', 'topics'], 'list'],
  ['GET', ['segments', '*', 'contacts'], 'list'], ['GET', ['automations', '*', 'runs'], 'list'], ['GET', ['broadcasts', '*', 'recipients'], 'list'], ['GET', ['broadcasts', '*', 'clicked-links'], 'list']);

export function splitUrl(url, base) {
  const u = new URL(url);
  const b = new URL(base);
  if (u.origin !== b.origin) return null;
  const prefix = b.pathname.replace(/\/+$/, '');
  let p = u.pathname;
  if (prefix) {
    if (!p.startsWith(`${prefix}/`)) return null;
    p = p.slice(prefix.length);
  }
  let segs;
  try {
    segs = p.slice(1).split('/').map((s) => decodeURIComponent(s));
  } catch {
    return null;
  }
  return { segs, q: [...u.searchParams.entries()], path: p, search: u.search, hash: u.hash };
}

const match = (pat, segs) => pat.length === segs.length && pat.every((p, i) => p === '*' || p === segs[i]);
export function routeKind(method, segs) {
  let best = null;
  for (const [m, pat, kind] of ROUTES) if (m === method && match(pat, segs) && (!best || pat.filter((x) => x === '*').length < best[0])) best = [pat.filter((x) => x === '*').length, kind];
  return best?.[1] ?? 'obj';
}

const EXTRA_KEYS = ['created_at', 'updatedAt', 'status', 'html', 'last_event', 'first_name', 'Data', 'error', 'data', 'headers', 'message', 'name', 'statusCode', 'é key', 'count', 'then_', '__v', 'object_', 'constructor', 'toString', '__proto__', 'hasOwnProperty', 'toJSON', 'length', 'alias', 'slug', 'uuid', 'template_id', '_id', 'url', 'next', 'cursor', 'key', 'token', 'version', 'email', 'audience_id', 'warnings', 'expires_at'];
function extras(r, depth = 2) {
  const o = {};
  const n = r.int(4);
  for (let i = 0; i < n; i++) Object.defineProperty(o, D.on && D.k.length && r.chance(0.4) ? r.pick(D.k) : r.pick(EXTRA_KEYS), { value: value(r, depth), enumerable: true, configurable: true, writable: true });
  return o;
}
function value(r, depth) {
  const d = dstr(r, 0.25);
  if (d !== null) return d;
  const num = dnum(r, 0.1, -1e15, 1e15);
  if (num !== null) return num;
  switch (r.int(depth > 0 ? 12 : 9)) {
    case 0: return null;
    case 1: return r.chance(0.5);
    case 2: return r.pick([0, -1, 1.5, 1e100, 9007199254740993, 12345678901]);
    case 3: return '';
    case 4: return '2026-03-01T12:00:00.000Z';
    case 5: return '東京 🚀 \u2028 \u0000 "q" \\';
    case 6: return '12';
    case 7: return 'x'.repeat(r.chance(0.01) ? r.pick([70_000, 300_000, 1_100_000]) : r.pick([1, 50, 5000]));
    case 8: return 'null';
    case 9: return Array.from({ length: r.int(4) }, () => value(r, depth - 1));
    default: return extras(r, depth - 1);
  }
}

// Where the original of a received email may be: any host the API names, even
// one whose name begins like the API's own.
export const rawHosts = (base) => ['https://inbound-cdn.resend.com', 'https://inbound-cdn.resend.com', `${new URL(base).protocol}//${new URL(base).hostname}.files.example`, 'https://bucket.s3.eu-west-1.amazonaws.example', 'http://localhost:9000'];
export function successBody(kind, mark, r, rawHost = 'https://inbound-cdn.resend.com', asked = null) {
  // What a call creates is what later calls name.
  const pooled = (m) => (r.chance(0.12) ? `shared-${r.int(3)}` : m);
  switch (kind) {
    case 'list': {
      const n = dnum(r, 0.2, 0, 300) ?? r.pick([0, 1, 2, 3, 10]);
      return { object: 'list', has_more: r.chance(0.5), data: Array.from({ length: n }, (_, i) => ({ id: pooled(`${mark}-${i}`), ...(r.chance(0.1) ? { email: 'shared@example.com' } : {}), ...extras(r, 1) })), mark };
    }
    case 'batch': return { data: Array.from({ length: r.int(4) }, (_, i) => ({ id: `${mark}-${i}` })), ...(r.chance(0.4) ? { errors: r.sample([0, 1, 2, 3, 5, 10, 11], 1 + r.int(4)).flatMap((index) => (r.chance(0.2) ? [{ index, message: 'bad' }, { index, message: `bad ${mark}` }] : [{ index, message: `bad ${mark}` }])) } : {}), mark };
    case 'cp': return { object: 'contact_property', ...cp(mark, r) };
    case 'cplist': return { object: 'list', has_more: r.chance(0.5), data: Array.from({ length: r.int(5) }, (_, i) => cp(`${mark}-${i}`, r)), mark };
    case 'recv': return { object: 'email', id: asked !== null && r.chance(0.5) ? asked : mark, mark, to: ['a@b.co'], from: 'c@d.co', subject: r.weighted([[`s ${mark}`, 6], [null, 1], ['', 1], [dstr(r, 1) ?? ' ', 1]]), html: null, text: 'x', headers: {}, created_at: '2026-01-01', attachments: [], raw: r.chance(0.9) ? { download_url: `${rawHost}/raw/${encodeURIComponent(r.chance(0.6) ? /m-.*-([^-]*)$/.exec(mark)[1] : mark)}?sig=1`, expires_at: '2026-01-02' } : null, ...(r.chance(0.3) ? { message_id: value(r, 1) } : {}) };
    default: {
      const o = { object: r.pick(['email', 'contact', 'thing']), id: mark, ...extras(r) };
      o.id = pooled(mark);
      if (o.id !== mark) o.mark = mark;
      if (r.chance(0.1)) o.email = 'shared@example.com';
      // A read answers with the thing asked for.
      if (asked !== null && r.chance(0.4)) { o.id = asked; o.mark = mark; }
      // Or with the thing of that other name.
      else if (asked !== null && r.chance(0.3)) { o[r.pick(['alias', 'alias', 'email', 'name', 'key', 'slug'])] = asked; o.id = r.pick([mark, `canon-${hashStr(asked).toString(36)}`]); o.mark = mark; }
      return o;
    }
  }
}
function cp(mark, r) {
  const o = { id: mark, key: r.pick(['plan', 'first_name', 'é']), type: r.pick(['string', 'number']), created_at: `2026-01-0${1 + r.int(9)}T00:00:00Z`, fallback_value: r.pick([null, 0, '', 'Acme', 12.5, 'a_b']) };
  return o;
}

// Same JSON document, different bytes on the wire.
function layout(text, r) {
  const k = r.int(8);
  if (k === 0) return JSON.stringify(JSON.parse(text), null, 2);
  if (k === 1) return `\n ${text}\r\n`;
  if (k === 5 && r.chance(0.3)) return `\ufeff${text}`;
  if (k === 3) return text.replace(/[\u0080-\uffff]/g, (c) => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`);
  return text;
}

// A client passes on whatever JSON a 2xx response holds. (Not null, and not for
// methods that read the body: their format is the API's contract.)
function oddBody(ex, kind, r) {
  if (!r.chance(0.05) || !ex.op || ex.op.spec.composite || ['cp', 'cplist'].includes(kind)) return undefined;
  return r.pick([0, 1, -0.5, 1e21, false, true, '', 'ok', '0', [], {}, [1, null], [[]], { data: null }, { data: null, error: null, headers: null }, { error: { name: 'e', message: 'm', statusCode: 422 } }, { name: 'rate_limit_exceeded', statusCode: 429, message: 'slow down' }, { statusCode: 500 }, { message: '' }, { object: 'list' }, { id: null }, { then: 'x' }, { success: false }, { ok: false, status: 404 }, { data: { id: 'inner', object: 'x' } }, { data: { data: [] } }, { result: { id: 'inner' } }, { response: {} }, { email: { id: 'inner' } }, [{ id: 'only' }], { data: [{ id: 'only' }] }, { data: {}, meta: {} }]);
}
// Fields of an answer the client knows nothing about.
function dress(body, r) {
  if (!r.chance(0.08) || body === null || typeof body !== 'object' || Array.isArray(body)) return body;
  return { ...body, ...r.pick([{ error: null }, { error: { name: 'e', message: 'm' } }, { statusCode: 400 }, { errors: [] }, { errors: [{ message: 'x' }] }, { message: 'queued' }, { name: 'validation_error', message: 'm', statusCode: 422 }, { headers: {} }, { data: r.pick([null, 'x']) }].filter((x) => !(body.data && 'data' in x))) };
}

export class EchoServer {
  constructor(sim, opt = {}) {
    this.sim = sim;
    this.opt = opt;
    this.base = opt.base ?? (() => 'https://api.resend.com');
    this.handled = [];
  }
  rng(ex, what) {
    return new Rng(this.sim.seed, ex.key, what);
  }
  handle(ex) {
    if (ex.response) return ex.response; // a duplicate of the same packet
    this.handled.push(ex);
    const base = this.base(ex);
    const s = base ? splitUrl(ex.url, base) : null;
    if (!s) return this.foreign(ex);
    const kind = ex.op?.spec && !ex.op.spec.composite ? ex.op.spec.kind : routeKind(ex.method, s.segs);
    const r = this.rng(ex, 'resp');
    const mark = `m-${ex.key}-${hashStr(ex.url).toString(36)}`;
    const body = this.opt.body?.(ex, s, kind, mark, r) ?? oddBody(ex, kind, r) ?? dress(successBody(kind, mark, r, r.pick(rawHosts(base)), ex.method === 'GET' && s.segs.length > 1 ? s.segs.at(-1) : null), r);
    ex.mark = mark;
    const status = r.weighted([[200, 8], [201, 3], [202, 1], [203, 0.3], [206, 0.3], [299, 0.3]]);
    return { status, statusText: '', headers: { ...JSONH }, body: layout(JSON.stringify(body), r) };
  }
  foreign(ex) {
    if (this.opt.foreign) return this.opt.foreign(ex);
    if (/\/raw\//.test(ex.url)) {
      const m = rawEmail(this.sim.seed, ex.url);
      ex.truth = m.truth;
      return { status: 200, raw: true, headers: { 'content-type': 'message/rfc822' }, body: m.bytes };
    }
    return { status: 404, statusText: 'Not Found', headers: { 'content-type': 'text/plain' }, body: 'no such host' };
  }
}
export { API };
