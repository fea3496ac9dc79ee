// A settled call leaves nothing behind in the process that made it.
import { createHmac } from 'node:crypto';
import { ALL, callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { renderFails } from './C01.mjs';

// Everything a library could alter without anyone's leave.
const shared = () => {
  const o = { globalThis, Object, Function, Array, String, Number, Boolean, Promise, RegExp, Map, Set, WeakMap, Error, TypeError, SyntaxError, Symbol, JSON, Math, Reflect, Headers, Request, Response, FormData, File, URL, URLSearchParams, Buffer, Uint8Array, ArrayBuffer, AbortController, AbortSignal, ReadableStream, TextEncoder, TextDecoder, console, Date, Blob, performance, crypto: globalThis.crypto };
  const out = [];
  for (const [name, v] of Object.entries(o)) {
    out.push([name, v]);
    if (typeof v === 'function' && v.prototype) out.push([`${name}.prototype`, v.prototype]);
  }
  out.push(['Iterator.prototype', Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()))]);
  return out;
};
function snapshot() {
  const objs = shared().map(([name, o]) => [name, o, Object.getOwnPropertyDescriptors(o), Reflect.ownKeys(o)]);
  const listeners = () => Object.fromEntries(process.eventNames().map((e) => [String(e), process.listenerCount(e)]));
  const l0 = listeners();
  const exit0 = process.exitCode;
  const before = new Map(process.eventNames().map((e) => [e, new Set(process.listeners(e))]));
  return {
    // What is different now; puts it back, so that the next run starts afresh.
    changes() {
      const out = [];
      for (const [name, o, was, keys] of objs) {
        for (const k of new Set([...keys, ...Reflect.ownKeys(o)])) {
          const a = was[k];
          const b = Object.getOwnPropertyDescriptor(o, k);
          // Lazily defined globals turn from accessors into values by themselves.
          if (a && b && (!('value' in a) || !('value' in b) || Object.is(a.value, b.value))) continue;
          if (!a && !b) continue;
          out.push(`${name}.${String(k)} ${!a ? 'appeared' : !b ? 'vanished' : 'was replaced'}`);
          try { if (a) Object.defineProperty(o, k, a); else delete o[k]; } catch {}
        }
      }
      for (const [e, n] of Object.entries(listeners())) if (n !== (l0[e] ?? 0)) out.push(`${n - (l0[e] ?? 0)} new process listener(s) for ${e}`);
      for (const e of process.eventNames()) for (const f of process.listeners(e)) if (!before.get(e)?.has(f)) process.removeListener(e, f);
      if (process.exitCode !== exit0) { out.push(`process.exitCode became ${process.exitCode}`); process.exitCode = exit0; }
      return out;
    },
  };
}

export default {
  id: 'C23',
  runs: { quick: 8000 },
  gen(r) {
    const clients = simpleClients(r);
    const tasks = callTasks(r, { names: r.chance(0.2) ? ['emails.receiving.forward'] : ALL, clients: clients.length, burst: 0.03, env: 0.05, gen: { wild: 0.1, react: r.pick([0, 0.2]), invalid: r.pick([0.05, 0.3]), opts: 0.3 } });
    // Not every use is a call: clients are built, with and without a key, and deliveries verified.
    if (r.chance(0.3)) for (const t of tasks) t.steps = t.steps.flatMap((st, i) => (r.chance(0.3) ? [st, { use: r.pick(['noKey', 'client', 'bareClient', 'genuine', 'forged', 'malformed']), n: i }] : [st]));
    return {
      config: { epoch: epoch(r), net: netCfg(r, { pFault: r.pick([0, 0.3, 0.7, 1]) }), env: { NODE_ENV: r.pick(['test', 'production']) } },
      clients,
      tasks,
    };
  },
  init(w) {
    w.host = snapshot();
    w.envBefore = { ...process.env };
  },
  step(w, t, s) {
    if (!s.use) return;
    w.sim.note(`use ${t.id} ${s.use}`, 'U');
    if (s.use === 'noKey') { w.makeClient({}); return; }
    if (s.use === 'client') { w.makeClient({ key: `re_${s.n}`, options: { baseUrl: 'https://other.example', userAgent: 'x/1' } }); return; }
    if (s.use === 'bareClient') { w.makeClient({ key: `re_${s.n}` }); return; }
    const secret = Buffer.from(`secret ${s.n}`).toString('base64');
    const ts = String(Math.floor((w.sim.now + w.sim.skew) / 1000));
    const body = s.use === 'malformed' ? '{' : JSON.stringify({ type: 'email.sent', n: s.n });
    const signature = `v1,${createHmac('sha256', Buffer.from(secret, 'base64')).update(`m${s.n}.${ts}.${body}`).digest('base64')}`;
    try { w.clients[0].client.webhooks.verify({ payload: s.use === 'forged' ? `${body} ` : body, headers: { id: `m${s.n}`, timestamp: ts, signature }, webhookSecret: `whsec_${secret}` }); w.sim.probe('verified'); } catch { w.sim.probe('verification-refused'); }
  },
  onSettle(w, op) {
    for (const t of w.sim.timers.values()) if (t.ctx === op && !t.unref) w.fail('timer-left', `${op.name} settled and left a timer running`, op);
    for (const ex of op.exchanges) {
      if (ex.cancelled || !ex.unread?.()) continue;
      w.fail('body-left', `${op.name} settled without reading or cancelling the body of the answer ${ex.delivered?.status} to ${ex.method} ${ex.url}: its connection stays taken`, op);
    }
    if (w.ops.every((o) => o.status !== 'pending')) for (const t of w.sim.timers.values()) if (!t.unref) w.fail('timer-left', 'every call has settled and a timer is still running', op);
    w.sim.probe(op.exchanges.some((e) => e.cancelled) ? 'settled-after-cancelling' : 'settled');
  },
  check(w) {
    if (w.stuck) w.fail('never-idle', 'the process keeps scheduling work after its calls have settled');
    for (const m of w.host.changes()) w.fail('host-changed', m);
    // As it was, but for what the plan itself set.
    const env = { ...process.env };
    for (const k of new Set([...Object.keys(env), ...Object.keys(w.envBefore)])) {
      const want = k in w.env ? w.env[k] ?? undefined : w.envBefore[k];
      if (env[k] !== want) w.fail('host-changed', `process.env.${k} became ${env[k]} (was ${want})`);
      if (!(k in w.env) && env[k] !== w.envBefore[k]) { if (w.envBefore[k] === undefined) delete process.env[k]; else process.env[k] = w.envBefore[k]; }
    }
    if (!w.ops.some((o) => (o.creates ?? o.spec.composite === 'chain') && renderFails(o))) for (const m of w.sim.rejections) w.fail('unhandled-rejection', `unhandled rejection: ${m}`);
  },
};
