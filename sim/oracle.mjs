// Oracles shared by the properties: what request a call stands for, and what a
// call must report given exactly what the simulated network delivered to it.
import { canon, decode, sameJson, short, viaJson } from './gen.mjs';
import { splitUrl } from './server.mjs';
import { real } from './core.mjs';

export function expected(op) {
  if (op.exp) return op.exp;
  const args = decode(op.enc);
  op.exp = op.spec.req ? op.spec.req(args) : null;
  op.decoded = args;
  return op.exp;
}
export const optionsOf = (op) => {
  const i = op.spec.optsAt;
  return i === undefined ? undefined : (op.decoded ??= decode(op.enc))[i];
};

const APP = 'application_error';
const td = new TextDecoder();
const parse = (bytes) => JSON.parse(td.decode(bytes));
const isObj = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);

// The reference for one exchange.
//   {kind:'data', data, headers} | {kind:'server-error', error, headers}
//   {kind:'http-error', status, headers} | {kind:'no-response'}
export function outcome(ex) {
  const d = ex.delivered;
  if (!d || d.rejected) return { kind: 'no-response' };
  if (d.ok) {
    if (d.bodyError) return { kind: 'no-response' };
    try {
      return { kind: 'data', data: parse(d.bytes), headers: d.headers, status: d.status };
    } catch {
      return { kind: 'no-response' };
    }
  }
  if (!d.bodyError) {
    try {
      const e = parse(d.bytes);
      if (isObj(e)) return { kind: 'server-error', error: e, headers: d.headers, status: d.status };
    } catch {}
  }
  return { kind: 'http-error', status: d.status, headers: d.headers };
}

const mapCp = (x) => ({ id: x.id, key: x.key, createdAt: x.created_at, type: x.type, fallbackValue: x.fallback_value });
// Documented translation of a success body into what the caller sees.
export function present(kind, data) {
  if (kind === 'cp') return { object: 'contact_property', ...mapCp(data) };
  if (kind === 'cplist') return { ...data, data: data.data.map(mapCp) };
  return data;
}

const plain = (h) => h !== null && typeof h === 'object' && !(h instanceof real.Headers);
export const sameHeaders = (got, want) => plain(got) && sameJson({ ...got }, want);

// Compares a settled result with the reference; returns [] or reasons.
// parts: which aspects to judge ('data', 'error').
export function compareOutcome(op, ex, parts = ['data', 'error']) {
  const o = outcome(ex);
  const v = op.value;
  const bad = [];
  if (op.status !== 'resolved' || !isObj(v)) return parts.includes('error') || o.kind === 'data' ? [['no-result', `call ${op.status} with ${short(String(v?.stack ?? v), 400)} although the exchange gave ${o.kind}`]] : [];
  if (o.kind === 'data') {
    if (!parts.includes('data')) return bad;
    const want = present(op.spec.kind, o.data);
    if (v.error !== null && v.error !== undefined) bad.push(['success-reported-as-error', `2xx JSON response reported as error ${short(v.error)}`]);
    else if (!sameJson(v.data, want)) bad.push(['wrong-data', `data differs: got ${short(v.data)} want ${short(want)}`]);
    else if (!sameHeaders(v.headers, o.headers)) bad.push(['wrong-headers', `headers differ: got ${short(v.headers)} want ${short(o.headers)}`]);
    return bad;
  }
  if (parts.includes('data') && (v.data !== null || !isObj(v.error))) bad.push(['failure-reported-as-success', `${o.kind} (${ex.decision?.kind}, status ${ex.delivered?.status}) reported as data=${short(v.data)} error=${short(v.error)}`]);
  if (!parts.includes('error')) return bad;
  if (v.data !== null && v.data !== undefined) bad.push(['data-on-failure', `data ${short(v.data)} on ${o.kind}`]);
  const e = v.error;
  if (!isObj(e)) return [...bad, ['error-not-object', `error is ${short(e)} for ${o.kind} status ${ex.delivered?.status} body ${short(ex.delivered?.bytes?.toString(), 80)}`]];
  switch (o.kind) {
    case 'server-error':
      if (!sameJson(viaJson(e), o.error)) bad.push(['error-not-verbatim', `server error ${short(o.error)} reported as ${short(e)}`]);
      if (!sameHeaders(v.headers, o.headers)) bad.push(['error-headers', `headers of the error response: got ${short(v.headers)} want ${short(o.headers)}`]);
      break;
    case 'http-error':
      if (e.name !== APP) bad.push(['error-name', `unreadable error body reported as ${short(e)}`]);
      if (e.statusCode !== o.status) bad.push(['error-status', `HTTP status ${o.status} reported as statusCode ${short(e.statusCode)}`]);
      if (typeof e.message !== 'string') bad.push(['error-message', `message is ${short(e.message)}`]);
      if (!sameHeaders(v.headers, o.headers)) bad.push(['error-headers', `headers of the error response: got ${short(v.headers)} want ${short(o.headers)}`]);
      break;
    default:
      if (e.name !== APP) bad.push(['error-name', `failure without response reported as ${short(e)}`]);
      if (e.statusCode !== null) bad.push(['error-status', `failure without a usable response reported with statusCode ${short(e.statusCode)}`]);
      if (typeof e.message !== 'string' || !e.message) bad.push(['error-message', `message is ${short(e.message)}`]);
      if (v.headers !== null) bad.push(['error-headers', `headers ${short(v.headers)} although there was no usable response`]);
  }
  return bad;
}

export function isLocalError(v, name) {
  return isObj(v) && v.data === null && isObj(v.error) && v.error.name === name && typeof v.error.message === 'string' && (v.error.statusCode === null || v.error.statusCode === undefined) && v.headers === null;
}

// ---- requests
export function address(op, ex, exp, base = op.clientRec.base) {
  const bad = [];
  if (ex.method !== exp.method) bad.push(['wrong-method', `${ex.method} instead of ${exp.method}`]);
  if (exp.rawPath !== undefined) {
    const want = new URL(`${base}${exp.rawPath}`).href;
    if (ex.url !== want) bad.push(['wrong-address', `${ex.url} instead of ${want}`]);
    return bad;
  }
  const s = splitUrl(ex.url, base);
  if (!s) return [...bad, ['wrong-host', `${ex.url} is not under ${base}`]];
  if (canon(s.segs) !== canon(exp.segs)) bad.push(['wrong-address', `${ex.url} addresses ${short(s.segs)} instead of ${short(exp.segs)}`]);
  if (s.hash) bad.push(['wrong-address', `fragment in ${ex.url}`]);
  return bad;
}
export function query(op, ex, exp, base = op.clientRec.base) {
  if (exp.rawPath !== undefined) return [];
  const s = splitUrl(ex.url, base);
  if (!s) return [];
  const sort = (q) => q.map(([k, v]) => `${k}=${v}`).sort();
  return canon(sort(s.q)) === canon(sort(exp.q)) ? [] : [['wrong-query', `query ${short(s.q)} instead of ${short(exp.q)} (${ex.url})`]];
}
function normBuffers(v) {
  if (Array.isArray(v)) return v.map(normBuffers);
  if (v && typeof v === 'object') {
    if (v.type === 'Buffer' && Array.isArray(v.data)) return Buffer.from(v.data).toString('base64');
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, normBuffers(x)]));
  }
  return v;
}
export function payload(op, ex, exp) {
  if (exp.form) return form(op, ex, exp.form);
  if (ex.body.kind === 'form' || ex.body.kind === 'bytes') return [['wrong-body', `body is ${ex.body.kind}`]];
  let want = viaJson(exp.body);
  if (ex.body.kind === 'none') return want === undefined || canon(want) === '{}' ? [] : [['missing-body', `no body instead of ${short(want)}`]];
  let got;
  try {
    got = JSON.parse(ex.body.text);
  } catch {
    return [['body-not-json', `body ${short(ex.body.text)}`]];
  }
  const ign = op.spec.bodyIgnore;
  if (ign && isObj(got)) { got = { ...got }; for (const k of ign) delete got[k]; }
  if (ign && isObj(want)) { want = { ...want }; for (const k of ign) delete want[k]; }
  if (want === undefined) return canon(got) === '{}' ? [] : [['unexpected-body', `body ${short(got)} for a call without a payload`]];
  if (sameJson(normBuffers(got), normBuffers(want))) return [];
  return [['wrong-body', `body ${diff(normBuffers(got), normBuffers(want))}`]];
}
export function diff(a, b, p = '$') {
  if (canon(a) === canon(b)) return null;
  if (isObj(a) && isObj(b)) {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      const d = diff(a[k], b[k], `${p}.${k}`);
      if (d) return d;
    }
  }
  if (Array.isArray(a) && Array.isArray(b) && a.length === b.length) {
    for (let i = 0; i < a.length; i++) {
      const d = diff(a[i], b[i], `${p}[${i}]`);
      if (d) return d;
    }
  }
  return `at ${p}: sent ${short(a, 200)} want ${short(b, 200)}`;
}
function form(op, ex, want) {
  if (ex.body.kind !== 'form') return [['not-multipart', `body is ${ex.body.kind}`]];
  const bad = [];
  const by = {};
  for (const e of ex.body.entries) (by[e.name] ??= []).push(e);
  const enc = op.enc[0].file;
  const f = by.file ?? [];
  if (f.length !== 1 || f[0].file === undefined) bad.push(['wrong-file', `${f.length} file parts`]);
  else {
    if (!Buffer.from(f[0].file, 'base64').equals(Buffer.from(enc.b64, 'base64'))) bad.push(['wrong-file', `uploaded bytes differ from the file (${f[0].file.length} vs ${enc.b64.length} base64 chars)`]);
    if (enc.name !== undefined && f[0].filename !== enc.name) bad.push(['wrong-file', `file name ${f[0].filename} instead of ${enc.name}`]);
  }
  delete by.file;
  for (const [k, v] of Object.entries(want)) {
    if (k === 'file') continue;
    const got = by[k] ?? [];
    delete by[k];
    if (v === undefined) { if (got.length) bad.push(['wrong-field', `unexpected field ${k}=${short(got[0].value)}`]); continue; }
    if (got.length !== 1) { bad.push(['wrong-field', `${got.length} values for ${k}`]); continue; }
    let g = got[0].value;
    if (typeof v !== 'string') try { g = JSON.parse(g); } catch {}
    if (!sameJson(g, viaJson(v))) bad.push(['wrong-field', `${k}=${short(g)} instead of ${short(v)}`]);
  }
  for (const k of Object.keys(by)) bad.push(['wrong-field', `unexpected field ${k}`]);
  return bad;
}

// Headers a request must carry, given the client's configuration and the
// options of the call. Returns {lowercase name: value}.
export function wantHeaders(op, { stateChanging = true } = {}) {
  const rec = op.clientRec;
  const h = { authorization: `Bearer ${rec.key}`, 'user-agent': rec.ua };
  if (!op.spec.form) h['content-type'] = 'application/json';
  if (op.spec.batch) h['x-batch-validation'] = 'strict';
  const o = optionsOf(op);
  if (o && stateChanging) {
    if (op.spec.batch && o.batchValidation !== undefined) h['x-batch-validation'] = o.batchValidation;
    if (o.headers) for (const [k, v] of new real.Headers(o.headers).entries()) h[k] = v;
    if (op.spec.idem && o.idempotencyKey) h['idempotency-key'] = o.idempotencyKey;
  }
  return h;
}
export function headers(op, ex, want) {
  const bad = [];
  const all = new Set([...Object.keys(want), ...Object.keys(ex.headers)]);
  for (const k of all) {
    if (k === 'content-type' && op.spec.form && want[k] === undefined) {
      if (!/^multipart\/form-data; *boundary=/.test(ex.headers[k] ?? '')) bad.push(['wrong-header', `content-type ${ex.headers[k]} on a multipart upload`]);
      continue;
    }
    if (ex.headers[k] !== want[k]) bad.push(['wrong-header', `${k}: ${short(ex.headers[k])} instead of ${short(want[k])}`]);
  }
  return bad;
}
export { isObj };
