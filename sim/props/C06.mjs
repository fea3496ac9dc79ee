// Credentials, base address and user agent are settled when the client is
// constructed, and the API key goes to the API and nowhere else.
import fs from 'node:fs';
import path from 'node:path';
import { API, callTasks, epoch, Gen, netCfg } from '../common.mjs';
import { printed } from '../core.mjs';
import { short } from '../gen.mjs';
import { REPO } from '../sdk.mjs';

const VERSION = JSON.parse(fs.readFileSync(path.join(REPO, 'package.json'), 'utf8')).version;
const BASES = ['https://eu.resend.example', 'http://localhost:3999/proxy/v1', 'https://api.resend.com', 'https://gw.example.org:8443/r'];
const key = (r, n) => `${r.weighted([['re_', 8], ['sk_live_', 1], ['', 1], ['RE-', 0.5], ['re.é', 0.3], ['Bearer-', 0.3], ['Bearer ', 0.3], ['bearer ', 0.2], ['Basic ', 0.2]])}${n}_${r.u32().toString(36)}${r.u32().toString(36)}`;
const UAS = ['acme-app/1.2', 'my agent (linux; x64)', 'x'];

function envOf(r, n) {
  const e = {};
  e.RESEND_API_KEY = r.weighted([[key(r, `env${n}`), 5], [null, 2], ['', 1]]);
  e.RESEND_BASE_URL = r.weighted([[r.pick(BASES), 3], [null, 4], ['', 2]]);
  e.RESEND_USER_AGENT = r.weighted([[r.pick(UAS), 3], [null, 4], ['', 2]]);
  e.NODE_ENV = r.pick(['production', 'test', null]);
  return e;
}
function clientOf(r, n) {
  const c = { mod: r.weighted([[0, 6], [1, 2], [2, 1]]) };
  if (r.chance(0.6)) c.key = key(r, `opt${n}`);
  else if (r.chance(0.3)) c.key = r.pick(['', { $: 'undef' }]);
  if (r.chance(0.5)) {
    c.options = {};
    if (r.chance(0.6)) c.options.baseUrl = r.weighted([[r.pick(BASES), 6], [{ $: 'undef' }, 1]]);
    if (r.chance(0.6)) c.options.userAgent = r.weighted([[r.pick(UAS), 6], [{ $: 'undef' }, 1], ['', 0.5]]);
  }
  return c;
}
const str = (v) => (typeof v === 'string' ? v : undefined);

export default {
  id: 'C06',
  runs: { quick: 12000 },
  nontrivialRule: 'the environment changed or a client was constructed while the run proceeded',
  gen(r) {
    const tasks = callTasks(r, { clients: 1, gen: { opts: 0.2, wild: 0.1, invalid: 0, react: r.pick([0, 0.2]) } });
    let n = 0;
    for (const t of tasks) {
      const out = [{ ctor: clientOf(r, n++) }];
      for (const s of t.steps) {
        if (r.chance(0.35)) out.push({ wait: 0.37, env: envOf(r, n++) });
        if (r.chance(0.25)) out.push({ ctor: clientOf(r, n++) });
        if (r.chance(0.15)) out.push({ meddle: r.int(4) });
        if (s.env || s.jump) continue;
        if (s.a) for (const a of s.a) if (a && typeof a === 'object' && a.headers && !s.m.startsWith('emails.send') && API[s.m].optsAt !== undefined) delete a.headers;
        s.pick = r.float();
        const { m, ...rest } = s;
        out.push({ do: m, ...rest });
      }
      t.steps = out;
    }
    return { config: { epoch: epoch(r), net: netCfg(r, { pFault: r.pick([0, 0.2, 0.5]) }), env: envOf(r, 'z'), sdk: { 2: { edge: r.pick([true, 'bare']) } } }, clients: [], tasks };
  },
  step(w, t, s, i, proc) {
    if (s.ctor) return construct(w, t, s.ctor);
    if (s.meddle !== undefined) {
      // The caller reuses its options object for something else.
      w.sim.probe('options-object-reused');
      for (const c of w.clients) if (c.optionsObj) {
        if (s.meddle & 1) c.optionsObj.baseUrl = 'https://elsewhere.example';
        if (s.meddle & 2) c.optionsObj.userAgent = 'meddled/1';
      }
      return;
    }
    if (s.do) {
      const live = w.clients.filter((c) => c.client);
      if (!live.length) return;
      const rec = live[Math.floor(s.pick * live.length)];
      const a = s.a;
      const o = API[s.do].optsAt;
      return w.call({ m: s.do, a: o !== undefined && a[o]?.headers ? a.map((x, j) => { if (j !== o) return x; const { headers, ...rest } = x; return rest; }) : a, clientRec: rec, task: t.id, id: `t${t.id}s${i}`, proc });
    }
  },
  check(w) {
    const keys = w.clients.map((c) => c.key).filter(Boolean);
    for (const op of w.ops) {
      const rec = op.clientRec;
      for (const ex of op.exchanges) {
        const api = ex.url.startsWith(`${rec.base}/`);
        const cdn = !api && op.spec.composite === 'forward' && op.exchanges.indexOf(ex) === 1 && ex.url.includes('/raw/');
        if (!api && !cdn) { w.fail('wrong-base', `${op.name} went to ${ex.url}; the client was built for ${rec.base}`, op); continue; }
        if (cdn) {
          const all = JSON.stringify([ex.url, ex.headers, ex.body]);
          if (ex.headers.authorization !== undefined || keys.some((k) => all.includes(k))) w.fail('key-leaked', `the API key was sent to ${ex.url}`, op);
          w.sim.probe('foreign-host');
          continue;
        }
        if (ex.headers.authorization !== `Bearer ${rec.key}`) w.fail('wrong-credentials', `${op.name} sent authorization ${ex.headers.authorization} instead of Bearer ${rec.key}`, op);
        if (ex.headers['user-agent'] !== rec.ua) w.fail('wrong-user-agent', `${op.name} sent user-agent ${ex.headers['user-agent']} instead of ${rec.ua}`, op);
        for (const k of keys) {
          if (ex.url.includes(k) || JSON.stringify(ex.body).includes(k)) w.fail('key-leaked', `an API key is in the address or body of ${ex.method} ${ex.url}`, op);
          if (k !== rec.key && JSON.stringify(ex.headers).includes(k)) w.fail('key-leaked', `another client's key was sent with ${op.name}`, op);
        }
      }
      if (op.status !== 'pending') {
        const t = short(op.status === 'resolved' ? op.value : [op.value?.message, op.value?.stack], 1e6) + printed(op.value);
        if (keys.some((k) => t.includes(k))) w.fail('key-leaked', `the API key is in the result of ${op.name}: ${short(t)}`, op);
      }
    }
    for (const l of w.sim.logs) { const t = short(l.args, 1e6) + l.text; if (keys.some((k) => t.includes(k))) w.fail('key-leaked', `the API key is in a log line: ${short(t)}`); }
  },
};

function construct(w, t, cfg) {
  w.nontrivial = true;
  const edge = (cfg.mod ?? 0) === 2;
  const env = edge ? {} : w.env;
  const wantKey = str(cfg.key) || env.RESEND_API_KEY || null;
  const rec = w.makeClient(cfg);
  rec.key = wantKey;
  rec.base = str(cfg.options?.baseUrl) ?? (env.RESEND_BASE_URL || 'https://api.resend.com');
  rec.ua = str(cfg.options?.userAgent) ?? (env.RESEND_USER_AGENT || `resend-node:${VERSION}`);
  w.sim.note(`construct ${t.id} ${rec.client ? 'ok' : 'threw'}`, 'K');
  if (!wantKey) {
    if (rec.client) w.fail('constructed-without-key', 'a client was constructed although no API key was given');
    else w.sim.probe('construction-refused');
    rec.client = null;
    return;
  }
  if (!rec.client) { w.fail('construction-failed', `construction threw although a key was available: ${rec.ctorError}`); return; }
  w.clients.push(rec);
}
