// A call reads its arguments when it is made and never writes to them.
import { ALL, API, callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { address, expected, headers, payload, query, wantHeaders } from '../oracle.mjs';
import { canon, decode, short } from '../gen.mjs';
import { real } from '../core.mjs';
import { refill } from '../world.mjs';
import { renderFails } from './C01.mjs';
import { forwardCheck } from './C10.mjs';

const opaque = (v) => v instanceof real.Blob || v instanceof real.Headers || ArrayBuffer.isView(v);
// What a caller can see of an argument.
export function snapshot(v, d = 0) {
  if (v === null || typeof v !== 'object') return v === undefined ? '§undefined' : v;
  if (v instanceof real.Headers) return { '§headers': [...v.entries()] };
  if (v instanceof real.Blob) return { '§blob': v.size, type: v.type, name: v.name ?? null };
  if (ArrayBuffer.isView(v)) return { '§bytes': Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('base64') };
  // (whatever was added out of sight included)
  const hidden = Reflect.ownKeys(v).length - Object.keys(v).length - (Array.isArray(v) ? 1 : 0);
  if (Array.isArray(v)) return hidden || Object.keys(v).length !== v.length ? { '§list': Reflect.ownKeys(v).map(String).join(',') } : v.map((x) => snapshot(x, d + 1));
  return { '§keys': (hidden ? Reflect.ownKeys(v) : Object.keys(v)).map(String).join(','), ...Object.fromEntries(Object.entries(v).map(([k, x]) => [k, snapshot(x, d + 1)])) };
}
// Which objects the caller can still change.
function fixed(v, out = []) {
  if (v === null || typeof v !== 'object' || opaque(v)) return out;
  out.push(Object.isFrozen(v) ? 'f' : Object.isExtensible(v) ? '-' : 's');
  for (const x of Object.values(v)) fixed(x, out);
  return out;
}
const fixedBy = (v) => fixed(v).join('');
function freeze(v) {
  if (v === null || typeof v !== 'object' || opaque(v) || Object.isFrozen(v)) return v;
  Object.freeze(v);
  for (const x of Object.values(v)) freeze(x);
  return v;
}
const JUNK = [() => 'meddled', () => ({ meddled: true }), () => null, () => ['meddled@example.com'], () => 7];
// The caller reuses the objects it passed: fields are replaced and removed,
// list entries are replaced, added and removed.
function meddle(v, how, deep) {
  if (v === null || typeof v !== 'object' || opaque(v)) { if (v instanceof real.Headers) { v.set('x-meddled', '1'); v.delete('x-custom'); } return; }
  if (Array.isArray(v)) {
    if (deep) for (const x of v) meddle(x, how, deep);
    if (how % 3 === 0) v.push('meddled');
    else if (how % 3 === 1) v.length = 0;
    else for (let i = 0; i < v.length; i++) v[i] = { from: 'meddled', to: 'meddled', subject: 'meddled', html: 'meddled' };
    return;
  }
  for (const k of Object.keys(v)) {
    if (deep) meddle(v[k], how, deep);
    if (k === 'react' || k === 'props' || v[k] instanceof real.Blob) continue;
    if (how & 4) delete v[k];
    else v[k] = JUNK[(how >> 3) % JUNK.length]();
  }
  v.idempotencyKey = 'meddled';
  v.meddled = true;
}
const RENDERS = new Set(ALL.filter((n) => API[n].reactAt || API[n].composite));

export default {
  id: 'C08',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0.1, 0.4]) });
    const tasks = callTasks(r, { names: r.chance(0.6) ? ALL.filter((n) => API[n].reactAt || API[n].optsAt !== undefined || API[n].composite) : ALL, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.2, react: r.pick([0, 0.5, 0.8]), invalid: 0, opts: 0.5 } });
    for (const t of tasks) for (const s of t.steps) if (s.m) { s.mode = r.pick(['freeze', 'meddle', 'meddle', 'late']); s.how = r.int(64); s.after = r.pick([0, 0, 1, 20]) + r.int(100) / 100; }
    return { config: { epoch: epoch(r), net }, clients, tasks };
  },
  argsFor(w, s) {
    let a = decode(s.a);
    // The objects of an earlier call, filled anew for this one.
    const last = s.reuse ? w.lastOp.get(s.m) : null;
    if (last?.args && w.free(last) && (last.meddled || last.step?.mode === 'freeze')) { const used = new Set(); a = a.map((x, i) => refill(last.args[i], x, used)); }
    if (s.mode === 'freeze') freeze(a);
    w.fixedNow = fixedBy(a);
    return a;
  },
  afterCall(w, op) {
    const s = op.step;
    op.before = canon(snapshot(decode(op.enc)));
    op.fixed = w.fixedNow;
    const now = () => {
      if (canon(snapshot(op.args)) !== op.before) { op.wrote = `${short(snapshot(op.args))}`; return; }
      if (fixedBy(op.args) !== op.fixed) { op.wrote = 'froze or sealed some of them'; return; }
      op.meddled = true;
      w.sim.count('callerReusesArguments');
      for (const a of op.args) {
        if (a === null || typeof a !== 'object') continue;
        meddle(a, s.how, !RENDERS.has(op.name));
      }
      // Entries of a batch are payloads of their own.
      if (RENDERS.has(op.name) && op.spec.batch && Array.isArray(decode(op.enc)[0])) for (const e of op.entries) meddle(e, s.how, false);
    };
    op.entries = op.spec.batch ? [...op.args[0]] : [];
    if (s.mode === 'meddle') now();
    else if (s.mode === 'late') w.sim.at(s.after, now, 'meddle');
  },
  onSettle(w, op) {
    if (!op.meddled && op.before !== undefined && canon(snapshot(op.args)) !== op.before) op.wrote = short(snapshot(op.args));
    else if (!op.meddled && op.before !== undefined && fixedBy(op.args) !== op.fixed) op.wrote = 'froze or sealed some of them';
  },
  check(w) {
    for (const op of w.ops) {
      if (op.wrote) { w.fail('argument-modified', `${op.name} changed its arguments: ${op.wrote} (before: ${short(op.before)})`, op); continue; }
      if (op.status === 'rejected' && !renders(op)) { w.fail('rejected', `${op.name} rejected: ${op.value?.stack ?? op.value}`, op); continue; }
      if (renders(op)) continue;
      if (op.spec.composite === 'forward') { for (const [k, m] of forwardRequests(op)) w.fail(`late-read:${k}`, `${op.name}: ${m}`, op); continue; }
      if (op.spec.composite) {
        const first = API[op.spec.first];
        const exp = first.req(decode(op.enc));
        const ex = op.exchanges[0];
        if (ex) for (const [k, m] of [...address(op, ex, exp), ...payload(op, ex, exp)]) w.fail(`late-read:${k}`, `${op.name}: ${m}`, op);
        continue;
      }
      const exp = expected(op);
      if (exp.local) continue;
      const rec = op.clientRec;
      rec.key = rec.cfg.key;
      rec.ua = rec.client.userAgent;
      const want = wantHeaders(op);
      for (const ex of op.exchanges) {
        const bad = [...address(op, ex, exp), ...query(op, ex, exp), ...payload(op, ex, exp)];
        const got = Object.fromEntries(Object.entries(ex.headers).filter(([k]) => KNOWN.has(k) || Object.hasOwn(want, k) || /meddled/.test(k)));
        if (ex.body.kind === 'none' && got['content-type'] === undefined) delete want['content-type'];
        bad.push(...headers(op, { headers: got }, want));
        for (const [k, m] of bad) w.fail(`late-read:${k}`, `${op.name}: ${m}`, op);
      }
    }
  },
};
const KNOWN = new Set(['authorization', 'user-agent', 'content-type', 'idempotency-key', 'x-batch-validation', 'x-custom', 'x-trace-id', 'x-entity-ref-id', 'accept', 'traceparent', 'x-empty', 'cookie', 'accept-language', 'x-forwarded-for', 'if-match', 'x-long', 'prefer']);
function renders(op) {
  const nodes = (op.spec.reactAt?.(decode(op.enc)) ?? []).filter(Boolean);
  return nodes.some((n) => n.props.sim.fail);
}
function forwardRequests(op) {
  return forwardCheck(op, { results: false });
}
