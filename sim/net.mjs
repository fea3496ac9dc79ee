// The simulated network: the only implementation of fetch the SDK ever sees.
import { als, cur, hooks, real } from './core.mjs';
import { D, dnum, dstr, dtime, PRINTABLE, TOKEN } from './dict.mjs';

const ms = (rng, max) => rng.int(Math.max(1, max * 1000)) / 1000;

const FAIL = {
  ECONNREFUSED: 'fetch failed',
  ETIMEDOUT: 'fetch failed',
  ECONNRESET: 'fetch failed',
  UND_ERR_HEADERS_TIMEOUT: 'fetch failed',
};
export function netError(code) {
  const e = new TypeError(FAIL[code] ?? 'fetch failed');
  e.cause = Object.assign(new Error(code), { code });
  return e;
}

function oddError(which) {
  switch (which) {
    case 'undefined': return undefined;
    case 'null': return null;
    case 'string': return 'socket hang up';
    case 'abort': return new DOMException('This operation was aborted', 'AbortError');
    case 'object': return { code: 'EPIPE' };
    case 'syntax': return new SyntaxError('Unexpected token in header');
    // Proxies, agents and mocks decorate their errors with what looks like an answer.
    case 'status': return Object.assign(new Error('proxy refused'), { statusCode: 407, status: 407, code: 'E407', type: 'system' });
    case 'answer': return Object.assign(new Error('rate limited'), { name: 'rate_limit_exceeded', statusCode: 429, error: { name: 'not_found', message: 'm', statusCode: 404 }, data: { id: 'x' }, body: '{"name":"not_found"}', headers: { 'x-a': '1' }, retryable: true, cause: { statusCode: 502, code: 'ECONNRESET' } });
    case 'response': return Object.assign(new Error('bad response'), { response: { status: 503, ok: false, data: { name: 'x', message: 'y' }, headers: {} } });
    case 'aggregate': return new AggregateError([new Error('connect ECONNREFUSED ::1'), new Error('connect ECONNREFUSED 127.0.0.1')], '');
    default: return new Error('odd');
  }
}
function streamError(which) {
  switch (which) {
    case 'string': return 'stream closed';
    case 'abort': return new DOMException('This operation was aborted', 'AbortError');
    case 'error': return new Error('read ECONNRESET');
    default: return new TypeError('terminated');
  }
}

export const ERROR_STATUSES = [400, 401, 403, 404, 405, 408, 409, 410, 413, 415, 418, 422, 425, 429, 431, 451, 500, 501, 502, 503, 504, 507, 520, 522, 524, 529, 300, 304];
const ERR_NAMES = ['validation_error', 'missing_api_key', 'restricted_api_key', 'invalid_api_key', 'not_found', 'method_not_allowed', 'invalid_idempotency_key', 'invalid_idempotent_request', 'concurrent_idempotent_requests', 'invalid_attachment', 'invalid_from_address', 'invalid_access', 'invalid_parameter', 'invalid_region', 'missing_required_field', 'monthly_quota_exceeded', 'daily_quota_exceeded', 'rate_limit_exceeded', 'security_error', 'application_error', 'internal_server_error', 'brand_new_error'];
const NON_OBJECT_BODIES = ['null', 'false', '0', '""', 'true', '"Service Unavailable"', '503', '[]', '[{"name":"x"}]', ' null ', '-1'];
const GATEWAY_BODIES = ['<html><head><title>502 Bad Gateway</title></head></html>', '', 'upstream connect error or disconnect/reset before headers', '{"message":"trunc', 'error code: 1015', '\u0000\u0001', '{}}', '{"a":1}\n{"b":2}', "{'name':'x'}", 'upstream: {"name":"not_found","message":"no route","statusCode":418}', '<pre>{"message":"wrapped"}</pre>', 'cb({"name":"x","message":"y"})', ")]}',\n{\"name\":\"x\"}", 'data: {"message":"sse"}\n\n', 'name=x&message=y', '{"name":"x"} {"name":"y"}', '[{"name":"x"}', '<?xml version="1.0"?><Error><Code>503</Code></Error>', 'Service Unavailable', '   '];

// Faults the simulator can inject on one exchange. `effect`: does the server
// process the request before the fault hits?
const JUNK = ['<!-- cached by edge-17 -->', '}', '{}', ' null', '\u0000', '\n{"id":"other"}', ',', ']', ';', 'undefined', '\n0\n\n', '\r\n--boundary--', '\u00a0', '//'];
export const FAULT_KINDS = ['refuse', 'lostRequest', 'lostResponse', 'bodyReset', 'truncate', 'garble', 'trailing', 'gateway', 'weirdErr', 'apiErr', 'throttle', 'errBodyReset', 'dup', 'stall', 'stallBody', 'oddReject', 'emptyOk'];

function errorObject(rng, forced) {
  const status = forced ?? dnum(rng, 0.25, 400, 599) ?? rng.pick(ERROR_STATUSES.filter((s) => s !== 304));
  const o = { name: dstr(rng, 0.25) ?? rng.pick(ERR_NAMES), message: dstr(rng, 0.2) ?? rng.pick(['Something went wrong', 'Missing `to` field.', 'Ünïcode – 失敗 🚫', '', 'Too many requests. You can only make 2 requests per second.', 'x'.repeat(rng.pick([10, 3000])), 'API key is invalid']), statusCode: status };
  if (rng.chance(0.2)) o.statusCode = rng.pick([null, 999, String(status)]);
  if (rng.chance(0.3)) o.details = { field: 'to', list: [1, null, { a: false }] };
  if (rng.chance(0.1)) delete o.statusCode;
  if (rng.chance(0.1)) delete o.name;
  if (rng.chance(0.05)) delete o.message;
  if (rng.chance(0.1)) o.data = { id: 'not-a-success' };
  if (rng.chance(0.1)) o.error = { message: 'nested', code: 'E1' };
  if (D.on && D.k.length && rng.chance(0.25)) Object.defineProperty(o, rng.pick(D.k), { value: dstr(rng, 0.6) ?? rng.pick([null, 0, '', true, [], { id: 'x' }, 'now']), enumerable: true, configurable: true, writable: true });
  if (rng.chance(0.03)) for (const k of Object.keys(o)) delete o[k];
  let body = JSON.stringify(o);
  // The same document, written another way.
  if (rng.chance(0.15)) body = rng.pick([() => JSON.stringify(o, null, 2), () => `\n ${body}\r\n`, () => `\ufeff${body}`, () => body.replace(/[\u0080-\uffff]/g, (c) => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`)])();
  return { status, body };
}

export function genDecision(rng, cfg) {
  const d = { up: ms(rng, cfg.latMax), down: ms(rng, cfg.latMax), kind: 'ok' };
  const nChunks = rng.weighted([[1, 5], [2, 3], [3, 2], [6, 1]]);
  d.cuts = [];
  for (let i = 1; i < nChunks; i++) d.cuts.push(Math.round(rng.float() * 1000) / 1000);
  d.gap = rng.chance(0.5) ? 0 : ms(rng, cfg.latMax / 2);
  if (rng.chance(cfg.pSlow ?? 0.05)) {
    const late = rng.pick([1000, 10_000, 31_000, 61_000, 130_000]);
    // Late from the start, or all through the body.
    if (rng.chance(0.6)) d.down += late;
    else { d.gap = late; if (!d.cuts.length) d.cuts = [0.3, 0.7]; }
  }
  const t = dtime(rng, 0.06, 3_600_000);
  if (t !== null) { if (rng.chance(0.5)) d.down += t; else { d.gap = t; d.cuts = [0.5]; } }
  if (D.on && rng.chance(0.2)) {
    const name = dstr(rng, 0.7, (s) => TOKEN.test(s) && !/^(content-length|content-encoding|transfer-encoding|content-type|authorization)$/i.test(s)) ?? rng.pick(['set-cookie', 'x-request-id', 'retry-after', 'x-resend-region', 'cache-control', 'server', 'via', 'etag']);
    d.xh = [name, dstr(rng, 0.7, (s) => PRINTABLE.test(s)) ?? rng.pick(['1', 'true', 'x', 'gone', String(rng.pick(D.n) ?? 0)])];
  }
  if (rng.chance(cfg.pFault)) {
    const kinds = Object.entries(cfg.kinds ?? {}).filter(([, w]) => w > 0);
    if (kinds.length) d.kind = rng.weighted(kinds);
    // Streaks: in some runs every failure is the same failure.
    if (kinds.length && cfg.mono && cfg.kinds[cfg.mono.kind]) d.kind = cfg.mono.kind;
  }
  const forced = cfg.mono?.status;
  switch (d.kind) {
    case 'lostRequest': d.wait = rng.pick([50, 5000, 30_000]); break;
    case 'lostResponse': d.wait = rng.pick([0, 20, 10_000]); break;
    case 'bodyReset': d.after = rng.float(); d.err = rng.pick(['terminated', 'string', 'abort', 'error']); break;
    case 'truncate': d.after = rng.float(); break;
    case 'garble': d.body = rng.pick(GATEWAY_BODIES.slice(0, 6)); break;
    // A proxy's own words before or after the server's document.
    case 'trailing': d.junk = rng.pick(JUNK); d.front = rng.chance(0.25); break;
    case 'gateway': {
      d.status = rng.pick(ERROR_STATUSES);
      if (D.on) d.status = dnum(rng, 0.2, 400, 599) ?? d.status;
      d.body = d.status === 304 ? '' : rng.pick(GATEWAY_BODIES);
      if (D.on && d.status !== 304) { const x = dstr(rng, 0.25); if (x !== null) d.body = rng.pick([x, `<html>${x}</html>`, `${x}: {"name":"x","message":"y"}`, JSON.stringify(x)]); }
      d.effect = rng.chance(0.4);
      d.ct = rng.pick(['text/html', 'text/plain', 'application/json', null]);
      d.statusText = rng.pick(['', 'Bad Gateway', 'Service Unavailable']);
      break;
    }
    case 'weirdErr': d.status = dnum(rng, 0.2, 400, 599) ?? rng.pick(ERROR_STATUSES.filter((s) => s !== 304)); d.body = rng.pick(NON_OBJECT_BODIES); if (rng.chance(0.15)) { const o = errorObject(rng, d.status).body; const x = rng.pick(JUNK); d.body = rng.chance(0.25) ? x + o : o + x; } d.effect = rng.chance(0.3); break;
    case 'apiErr': { Object.assign(d, errorObject(rng, forced)); d.effect = rng.chance(0.15); d.statusText = rng.pick(['', 'Unprocessable Entity', 'OK']); break; }
    case 'throttle': d.status = 429; d.retry = rng.pick(['1', '60', '0', 'Wed, 21 Oct 2026 07:28:00 GMT']); d.body = JSON.stringify({ statusCode: 429, name: rng.pick(['rate_limit_exceeded', 'daily_quota_exceeded', 'monthly_quota_exceeded']), message: 'Too many requests' }); break;
    case 'errBodyReset': { Object.assign(d, errorObject(rng, forced)); d.after = rng.float(); d.err = rng.pick(['terminated', 'string', 'abort', 'error']); d.statusText = rng.pick(['', 'Internal Server Error']); break; }
    case 'dup': d.again = ms(rng, cfg.latMax * 3); break;
    case 'stall': d.effect = rng.chance(0.5); d.wait = rng.pick([60_000, 300_000, 900_000]); break;
    case 'stallBody': d.after = rng.float(); d.wait = rng.pick([60_000, 300_000]); d.err = 'terminated'; break;
    case 'oddReject': d.odd = rng.pick(['undefined', 'null', 'string', 'abort', 'object', 'syntax', 'error', 'status', 'answer', 'response', 'aggregate']); d.effect = rng.chance(0.3); break;
  }
  d.hdr = rng.int(1 << 16);
  return d;
}

const EXTRA = [['etag', '"#"'], ['last-modified', 'Wed, 21 Oct 2026 07:28:00 GMT'], ['set-cookie', 'sid=#; Path=/; HttpOnly'], ['cache-control', 'max-age=3600'], ['cache-control', 'immutable, max-age=31536000'], ['retry-after', '5'], ['retry-after', 'Wed, 21 Oct 2026 07:28:00 GMT'], ['location', '/emails/#'], ['link', '</emails?after=#>; rel="next"'], ['connection', 'close'], ['deprecation', 'true'], ['warning', '199 - "stale"'], ['content-type', 'application/problem+json'], ['x-ratelimit-remaining', '0'], ['ratelimit-remaining', '0'], ['ratelimit-reset', '30'], ['server-timing', 'db;dur=53'], ['date', 'Wed, 21 Oct 2026 07:28:00 GMT'], ['age', '120'], ['alt-svc', 'h3=":443"'], ['idempotent-replayed', 'true'], ['x-idempotency-key', 'k#'], ['content-language', 'en'], ['authorization', 'none'], ['x-resend-version', '2'], ['x-resend-region', 'eu-west-1'], ['x-resend-deprecated', 'use /v2'], ['x-next-url', 'https://eu.resend.example'], ['set-cookie', '__cf_bm=#; path=/; Secure'], ['set-cookie', '__Host-session=#; Secure; Path=/'], ['set-cookie', 'lb=#'], ['server', 'cloudflare'], ['cf-ray', '#-MAD'], ['x-cache', 'HIT'], ['x-should-retry', 'true'], ['strict-transport-security', 'max-age=31536000'], ['accept-ch', 'sec-ch-ua'], ['www-authenticate', 'Bearer error="expired"'], ['clear-site-data', '"*"'], ['refresh', '5']];
// Response headers that exercise every way a header map can look.
function responseHeaders(d, base, size) {
  const h = new real.Headers(base);
  const b = d.hdr ?? 0;
  // What fetch shows of a compressed response: the length on the wire.
  if (size !== null && (b & 49152) === 16384) h.set('content-length', String(size));
  if (size !== null && (b & 49152) === 49152) { h.set('content-encoding', b & 1 ? 'gzip' : 'br'); h.set('content-length', String(Math.ceil(size * 0.4))); }
  if (b & 1) h.set('x-request-id', `req-${b}`);
  if (b & 2) { h.set('ratelimit-limit', '2'); h.set('ratelimit-remaining', String(b % 3)); h.set('ratelimit-reset', '1'); }
  if (b & 4) h.set('X-Trace-ID', 'MiXeD Case');
  if ((b & 24) === 24) { h.append('vary', 'accept'); h.append('vary', 'origin'); }
  if ((b & 96) === 96) h.set('x-empty', '');
  if ((b & 384) === 384) h.set('content-type', 'application/json; charset=utf-8');
  if ((b & 3584) === 3584) h.delete('content-type');
  if (d.retry) h.set('retry-after', d.retry);
  if ((b & 12288) === 12288) h.set('content-type', 'text/plain');
  if (d.xh) try { h.set(d.xh[0], d.xh[1]); } catch {}
  if (b % 7 === 0) { const [k, v] = EXTRA[(b / 7) % EXTRA.length | 0]; h.append(k, v.replace('#', String(b))); }
  return h;
}

const ROOM = 1e6;
export class Net {
  constructor(sim, cfg, server) {
    this.sim = sim;
    this.cfg = cfg;
    this.server = server;
    this.exchanges = [];
    this.orphans = 0;
    this.cache = new Map();
    this.active = new Set();
    this.onExchange = null;
    hooks.fetch = (i, o) => this.fetch(i, o);
    for (const t of cfg.resets ?? []) sim.at(t, () => this.resetAll(), 'reset-all');
  }
  // A server restart / load-balancer failover: every connection is cut.
  resetAll() {
    if (this.active.size) this.sim.count('resetAll');
    this.sim.note(`reset-all ${this.active.size}`, 'R');
    for (const ex of [...this.active]) ex.kill('ECONNRESET');
  }
  partitioned(t = this.sim.now) {
    const rel = t - this.sim.start;
    for (const p of this.cfg.partitions ?? []) if (rel >= p.from && rel < p.to) return p;
    return null;
  }

  fetch(input, init) {
    const sim = this.sim;
    const op = als.getStore() ?? null;
    if (op?.dead) return new Promise(() => {});
    let req;
    try {
      req = new real.Request(input, init);
    } catch (e) {
      if (op) op.invalid = (op.invalid ?? 0) + 1;
      sim.note(`fetch-invalid ${op?.id ?? '-'} ${e.message}`, 'I');
      return Promise.reject(e);
    }
    const key = op ? (op.netKey ?? op.id) : 'orphan';
    const n = op ? (op.fetches = (op.fetches ?? 0) + 1) : ++this.orphans;
    const ex = {
      n,
      op,
      seq: sim.seq,
      key: `${key}/x${n}`,
      url: req.url,
      method: req.method,
      headers: Object.fromEntries(req.headers.entries()),
      body: null,
      tSend: sim.now,
      fetchFn: 'fetch',
      delivered: null,
      tDone: null,
      deliveries: 0,
    };
    this.exchanges.push(ex);
    if (op) op.exchanges.push(ex);
    this.modes(ex, req, init);
    this.captureBody(ex, req, input, init);
    const d = sim.decide(ex.key, (rng) => genDecision(rng, this.cfgFor(ex)), { up: 1, down: 1, kind: 'ok', cuts: [], gap: 0, hdr: 0 });
    ex.decision = d;
    sim.note(`send ${ex.key} ${ex.method} ${ex.url} ${d.kind}`, `S${op?.task ?? ''}`);
    this.onExchange?.(ex);

    return new Promise((resolve, reject) => {
      let done = false;
      let controller = null;
      const finish = () => {
        if (ex.tDone !== null) return false;
        ex.tDone = sim.now;
        this.active.delete(ex);
        return true;
      };
      const fail = (err, why) => {
        if (done) return;
        done = true;
        finish();
        ex.delivered = { rejected: true };
        sim.note(`reject ${ex.key} ${why}`, `X${op?.task ?? ''}`);
        reject(err);
      };
      const failStream = (err) => {
        if (!controller || ex.tDone !== null) return;
        ex.delivered.bodyError = true;
        ex.delivered.errorMessage = err instanceof Error || err instanceof DOMException ? err.message : null;
        finish();
        sim.note(`abort-body ${ex.key}`, `B${op?.task ?? ''}`);
        try { controller.error(err); } catch {}
      };
      ex.kill = (code) => {
        if (!done) fail(netError(code), code);
        else failStream(new TypeError('terminated'));
      };
      this.active.add(ex);
      if (req.signal) {
        const onAbort = () => {
          const r = req.signal.reason ?? new DOMException('This operation was aborted', 'AbortError');
          ex.aborted = true;
          if (!done) fail(r, 'aborted');
          else failStream(r);
        };
        if (init?.signal?.aborted) return fail(init.signal.reason, 'aborted');
        req.signal.addEventListener('abort', onAbort);
      }

      const serve = () => {
        ex.deliveries++;
        sim.note(`arrive ${ex.key}`, `A${op?.task ?? ''}`);
        const r = this.server.handle(ex);
        if (ex.deliveries === 1) ex.response = r;
        return r;
      };
      const respond = (r, { cut = null, err = null, wait = 0 } = {}) => {
        if (done) return;
        const p = this.partitioned();
        if (p) {
          sim.count('partition');
          sim.at(p.to - (sim.now - sim.start) + 1, () => fail(netError('ECONNRESET'), 'partition'));
          return;
        }
        done = true;
        const buf = Buffer.isBuffer(r.body) ? r.body : Buffer.from(r.body ?? '');
        const limit = cut === null ? buf.length : Math.min(buf.length, Math.floor(cut * buf.length));
        const headers = r.raw ? new real.Headers(r.headers) : responseHeaders(d, r.headers, limit === buf.length && !err ? buf.length : null);
        const nullBody = [204, 205, 304].includes(r.status);
        const statusText = r.statusText ?? d.statusText ?? '';
        ex.delivered = {
          status: r.status,
          ok: r.status >= 200 && r.status <= 299,
          statusText,
          headers: Object.fromEntries(headers.entries()),
          bytes: nullBody ? Buffer.alloc(0) : buf.subarray(0, limit),
          full: limit === buf.length && !err,
          bodyError: false,
        };
        ex.tHead = sim.now;
        if (ex.method === 'GET' && ex.delivered.ok && ex.delivered.full) this.cache.set(ex.url, r);
        if (ex.hop) {
          finish();
          sim.count('redirect');
          if (ex.hop === 'error') return reject(netError('ERR_REDIRECT'));
          return resolve(new real.Response(null, { status: 307, headers: { location: 'https://elsewhere.example/' } }));
        }
        sim.note(`head ${ex.key} ${r.status}`, `H${op?.task ?? ''}`);
        let stream = null;
        if (!nullBody) {
          stream = new real.ReadableStream({ start(c) { controller = c; }, cancel() { ex.cancelled = true; } }, { highWaterMark: ROOM });
          // Whether the body, or any part of it, is still there for someone to read.
          ex.unread = () => controller.desiredSize !== null && controller.desiredSize !== 0;
          const points = [...new Set(d.cuts.map((c) => Math.floor(c * limit)).filter((c) => c > 0 && c < limit))].sort((a, b) => a - b);
          const chunks = [];
          let prev = 0;
          for (const p2 of [...points, limit]) { if (p2 > prev) chunks.push(buf.subarray(prev, p2)); prev = p2; }
          let t = 0;
          chunks.forEach((c, i) => {
            if (i > 0) t += d.gap;
            const put = () => { if (ex.tDone === null) try { controller.enqueue(new Uint8Array(c)); } catch {} };
            if (t === 0) put(); else sim.at(t, put, 'chunk');
          });
          const end = () => {
            if (ex.tDone !== null) return;
            if (err) return failStream(streamError(err));
            finish();
            sim.note(`end ${ex.key}`, `E${op?.task ?? ''}`);
            try { controller.close(); } catch {}
          };
          if (t + wait === 0) end(); else sim.at(t + wait, end, 'end');
        } else finish();
        resolve(new real.Response(stream, { status: r.status, statusText, headers }));
      };
      const later = (delay, fn) => sim.at(delay, fn, 'net');
      const k = d.kind;
      if (k !== 'ok') sim.count(k);

      const p0 = this.partitioned();
      if (p0) {
        sim.count('partition');
        return later(Math.min(d.up, 50) + 1, () => fail(netError('ETIMEDOUT'), 'partition'));
      }
      const jsonErr = () => ({ status: d.status, body: d.body, statusText: d.statusText, headers: d.ct === null ? {} : { 'content-type': d.ct ?? 'application/json' } });
      if (ex.cached) return later(d.up, () => { sim.note(`cached ${ex.key}`, 'c'); ex.response = ex.cached; respond(ex.cached); });
      later(d.up, () => {
        if (done) return;
        switch (k) {
          case 'refuse': return fail(netError('ECONNREFUSED'), k);
          case 'lostRequest': return later(d.wait, () => fail(netError('ETIMEDOUT'), k));
          case 'oddReject': if (d.effect) serve(); return later(d.down, () => fail(oddError(d.odd), k));
          case 'stall': if (d.effect) serve(); return later(d.wait, () => fail(netError('UND_ERR_HEADERS_TIMEOUT'), k));
          case 'gateway': case 'weirdErr': case 'apiErr': if (d.effect) serve(); return later(d.down, () => respond(jsonErr()));
          case 'throttle': return later(d.down, () => respond(jsonErr()));
          case 'errBodyReset': return later(d.down, () => respond(jsonErr(), { cut: d.after, err: d.err, wait: d.gap }));
        }
        const r = serve();
        switch (k) {
          case 'lostResponse': return later(d.down + d.wait, () => fail(netError('ECONNRESET'), k));
          case 'bodyReset': return later(d.down, () => respond(r, { cut: d.after, err: d.err, wait: d.gap }));
          case 'stallBody': return later(d.down, () => respond(r, { cut: d.after, err: d.err, wait: d.wait }));
          case 'truncate': return later(d.down, () => respond(r, { cut: d.after }));
          case 'garble': return later(d.down, () => respond({ ...r, body: d.body, headers: { 'content-type': 'text/html' } }));
          case 'trailing': { const b = Buffer.isBuffer(r.body) ? r.body : Buffer.from(r.body ?? ''); const j = Buffer.from(d.junk); return later(d.down, () => respond({ ...r, body: Buffer.concat(d.front ? [j, b] : [b, j]) })); }
          case 'emptyOk': return later(d.down, () => respond({ ...r, body: '' }));
          case 'dup': later(d.again, () => { serve(); }); return later(d.down, () => respond(r));
          default: return later(d.down, () => respond(r));
        }
      });
    });
  }

  // What runtimes make of fetch's other options. Without them nothing here applies.
  modes(ex, req, init) {
    // Servers and content networks redirect; a call that asked fetch not to
    // follow does not get the answer it could have had.
    if (req.redirect !== 'follow') ex.hop = this.sim.decide(`${ex.key}/hop`, (r) => r.chance(0.5), false) ? req.redirect : null;
    // A cache answers whoever says it may.
    const next = init?.next?.revalidate;
    if (ex.method === 'GET' && (['force-cache', 'only-if-cached'].includes(req.cache) || next === false || next > 0)) ex.cached = this.cache.get(ex.url) ?? null;
    // Browsers send no more than 64 KiB with keepalive.
    if (req.keepalive && typeof init?.body === 'string' && Buffer.byteLength(init.body) > 65536 && ex.op) ex.op.invalid = (ex.op.invalid ?? 0) + 1;
  }
  cfgFor(ex) {
    if (ex.op?.netCfg) return { ...this.cfg, ...ex.op.netCfg };
    return this.cfg;
  }

  captureBody(ex, req, input, init) {
    const raw = init?.body ?? null;
    const ct = ex.headers['content-type'] ?? '';
    if (raw === null && !(input instanceof real.Request && input.body)) {
      ex.body = { kind: 'none' };
    } else if (typeof raw === 'string') {
      ex.body = { kind: 'text', text: raw };
    } else if (raw instanceof real.FormData) {
      ex.body = { kind: 'form', entries: [], sync: ct };
      const list = [...raw.entries()];
      this.sim.barriers.push(
        (async () => {
          for (const [name, v] of list) {
            if (typeof v === 'string') ex.body.entries.push({ name, value: v });
            else ex.body.entries.push({ name, file: Buffer.from(await v.arrayBuffer()).toString('base64'), type: v.type, filename: v.name });
          }
        })(),
      );
    } else {
      ex.body = { kind: 'bytes', text: '' };
      this.sim.barriers.push(
        (async () => {
          const buf = Buffer.from(await req.clone().arrayBuffer());
          if (/^multipart\/form-data/.test(ct)) {
            const fd = await new real.Response(buf, { headers: { 'content-type': ct } }).formData();
            ex.body = { kind: 'form', entries: [], sync: ct };
            for (const [name, v] of fd.entries()) {
              if (typeof v === 'string') ex.body.entries.push({ name, value: v });
              else ex.body.entries.push({ name, file: Buffer.from(await v.arrayBuffer()).toString('base64'), type: v.type, filename: v.name });
            }
          } else {
            ex.body = { kind: 'text', text: buf.toString('utf8') };
          }
        })().catch((e) => { ex.body = { kind: 'text', text: `<<unreadable ${e.message}>>` }; }),
      );
    }
  }
}
