// Idempotency keys: however often a keyed send is retried, by whichever client
// and across crashes, it takes effect once.
import { API, epoch, Gen, netCfg } from '../common.mjs';
import { splitUrl } from '../server.mjs';
import { hashStr, Rng } from '../core.mjs';
import { rawEmail } from '../mime.mjs';
import { short } from '../gen.mjs';
import { dstr, inFocus, PRINTABLE } from '../dict.mjs';

const METHODS = ['emails.send', 'emails.create', 'batch.send', 'batch.create', 'emails.receiving.forward', 'post'];
const J = { 'content-type': 'application/json' };

// Reference for the server side of the contract: per account, the first request
// with a key takes effect; later ones get the recorded answer; a different
// payload under the same key is refused.
class DedupServer {
  constructor(sim) {
    this.sim = sim;
    this.keys = new Map();
    this.effects = [];
  }
  handle(ex) {
    const base = ex.op?.clientRec?.base;
    const s = splitUrl(ex.url, base);
    if (!s) {
      if (ex.url.includes('/raw/')) return { status: 200, raw: true, headers: { 'content-type': 'message/rfc822' }, body: rawEmail(this.sim.seed, ex.url).bytes };
      return { status: 404, headers: {}, body: '' };
    }
    const json = (status, o) => ({ status, headers: J, body: JSON.stringify(o) });
    if (ex.method === 'GET') {
      const id = s.segs.at(-1);
      const r = new Rng(this.sim.seed, id);
      return json(200, { object: 'email', id, subject: `s ${id}`, raw: { download_url: `https://inbound-cdn.resend.com/raw/${encodeURIComponent(id)}?n=${r.int(1000)}`, expires_at: '2027-01-01' } });
    }
    const account = ex.headers.authorization;
    const key = ex.headers['idempotency-key'];
    const text = ex.body.text ?? '';
    const mark = (/mk-[0-9a-z]+-[0-9a-z]+/.exec(text) ?? [])[0] ?? null;
    const act = () => {
      const id = `e${this.effects.length}-${hashStr(`${mark}${this.sim.seed}`).toString(36)}`;
      this.effects.push({ mark, id, account, key, at: this.sim.now, ex });
      return json(200, s.segs.at(-1) === 'batch' ? { data: [{ id }] } : { id });
    };
    if (key === undefined) return act();
    const k = `${account}\n${key}`;
    const seen = this.keys.get(k);
    const norm = canonText(text) + s.path;
    if (seen) {
      this.sim.probe('deduplicated');
      if (seen.norm !== norm) { seen.conflict = true; ex.conflict = true; return json(409, { statusCode: 409, name: 'invalid_idempotent_request', message: 'Same idempotency key used with a different request payload' }); }
      return seen.resp;
    }
    const resp = act();
    this.keys.set(k, { resp, norm });
    return resp;
  }
}
function canonText(t) {
  try { return JSON.stringify(sort(JSON.parse(t))); } catch { return t; }
}
const sort = (v) => (Array.isArray(v) ? v.map(sort) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sort(v[k])])) : v);

export default {
  id: 'C07',
  keepArgs: true,
  runs: { quick: 10000 },
  nontrivialRule: 'a process crashed and was restarted',
  gen(r) {
    const accounts = Array.from({ length: 1 + r.int(2) }, (_, i) => `re_acct${i}_${r.u32().toString(36)}`);
    const net = netCfg(r, { pFault: r.pick([0, 0.3, 0.6, 0.9]), kinds: { refuse: 3, lostRequest: 3, lostResponse: 6, bodyReset: 4, truncate: 3, garble: 2, trailing: 2, gateway: 4, weirdErr: 2, apiErr: 1, throttle: 3, errBodyReset: 2, dup: 3, stall: 2, stallBody: 2, oddReject: 2, emptyOk: 2 } });
    const tasks = [];
    const nP = r.pick([1, 2, 3]);
    const methods = inFocus(METHODS);
    const sharedKey = r.chance(0.3);
    let n = 0;
    for (let p = 0; p < nP; p++) {
      const g = new Gen(r, { tag: `t${p}`, opts: 1, react: r.pick([0, 0.4]), wild: 0.2, invalid: 0 });
      const steps = [];
      for (let i = 0, k = 1 + r.int(4); i < k; i++) {
        const m = r.pick(methods);
        const mark = `mk-${(n++).toString(36)}-${r.u32().toString(36)}`;
        const a = API[m].gen(g);
        stamp(m, a, mark);
        let key = null;
        if (r.chance(0.85)) key = r.pick([`key/${mark}`, `K-${mark} x`, mark, `${r.u32().toString(16)}${mark}`, `${'tenant/order-confirmation/'.repeat(r.pick([2, 5, 9]))}${mark}`, `${mark}${r.pick(['/', '=', '.', '-', '//', '?', '#', ':', '%', '+', '"', ')', '_', '*', '&', '~', ','])}`, `${r.pick(['/', '=', '.', '-', '0', '"', '_'])}${mark}`, `${dstr(r, 1, (x) => PRINTABLE.test(x)) ?? 'Q'}${mark}`, `${mark}${dstr(r, 1, (x) => PRINTABLE.test(x)) ?? 'Q'}`]);
        const o = a[API[m].optsAt] ?? {};
        delete o.idempotencyKey;
        if (o.headers) delete o.headers;
        if (key) o.idempotencyKey = key;
        // Headers of the call's own, even one that would be another key.
        if (key && r.chance(0.2)) o.headers = { 'X-Trace-Id': `t${r.int(9)}`, ...(r.chance(0.3) ? { [r.pick(['Idempotency-Key', 'idempotency-key'])]: `other-${r.u32().toString(36)}` } : {}) };
        if (key || Object.keys(o).length) a[API[m].optsAt] = o; else if (a.length > API[m].optsAt) a.length = API[m].optsAt;
        // The reference server does not model strict/permissive validation.
        steps.push({ intent: i, im: m, a, key, mark, client: p % accounts.length, twice: !!key && r.chance(0.25), gap: r.pick([0, 0, 1, 50]), quiet: 3 + r.int(5) });
      }
      if (sharedKey && steps.length > 1) { const [x, y] = steps; if (x.key && y.im === x.im) { y.key = null; const yo = y.a[API[y.im].optsAt]; if (yo) { delete yo.idempotencyKey; delete yo.headers; } } }
      const crashes = r.chance(0.5) ? Array.from({ length: 1 + r.int(3) }, () => Math.round(r.float() * net.latMax * 12 * 100) / 100).sort((x, y) => x - y) : [];
      const all = steps.map((s) => ({ ...s }));
      tasks.push({ id: p, start: r.chance(0.5) ? 0 : r.int(20), crashes, steps: all });
    }
    const bases = r.pick([undefined, 'http://localhost:3999/proxy/v1']);
    return { config: { epoch: epoch(r), net, maxSteps: 40000 }, clients: accounts.map((key, i) => ({ key, mod: i, ...(bases ? { options: { baseUrl: bases } } : {}) })), tasks };
  },
  server(w) { w.dedup = new DedupServer(w.sim); return w.dedup; },
  // Each task is an application process working through its intents: durable
  // state is the set of intents it has recorded as done; a crash loses the rest.
  start(w) {
    w.intents = [];
    w.generation = 100;
    for (const t of w.plan.tasks) {
      const disk = new Set();
      const state = { proc: null };
      const boot = () => {
        const proc = { id: `${t.id}.${w.generation}`, ops: [], dead: false, mod: w.generation++ };
        state.proc = proc;
        for (const s of t.steps) if (!disk.has(s.intent)) pursue(w, t, s, proc, disk);
      };
      for (const s of t.steps) w.intents.push(Object.assign(s, { attempts: 0, results: [], done: false, t: t.id }));
      w.sim.at(t.start ?? 0, boot, 'boot');
      for (const c of t.crashes ?? []) w.sim.at((t.start ?? 0) + c, () => {
        const p = state.proc;
        if (!p || p.dead || t.steps.every((s) => disk.has(s.intent))) return;
        w.sim.count('crash');
        w.nontrivial = true;
        w.sim.note(`crash p${t.id}`, `K${t.id}`);
        p.dead = true;
        for (const o of p.ops) if (o.status === 'pending') { o.dead = true; o.crashed = true; }
        w.sim.at(5, boot, 'restart');
      });
    }
  },
  step() {}, // intents are driven from start()
  check(w) {
    const eff = new Map();
    for (const e of w.dedup.effects) { if (!eff.has(e.mark)) eff.set(e.mark, []); eff.get(e.mark).push(e); }
    for (const s of w.intents) {
      const list = eff.get(s.mark) ?? [];
      if (s.key) {
        if (list.length > 1) w.fail('took-effect-twice', `${s.im} with idempotency key ${s.key} took effect ${list.length} times over ${s.attempts} attempts (keys the server saw: ${short(list.map((x) => x.key))})`);
        if (!w.stuck && !s.done && !s.hopeless) w.fail('never-completed', `${s.im} with idempotency key ${s.key} still fails after ${s.attempts} attempts without faults: ${short(s.last)}`);
        if (s.done && list.length === 0) w.fail('success-without-effect', `${s.im} with key ${s.key} reported success but the server never processed it`);
        for (const r of s.results) {
          const id = Array.isArray(r?.data) ? r.data[0]?.id : r?.id;
          if (list.length === 1 && id !== list[0].id) w.fail('wrong-result', `${s.im} with key ${s.key} reported ${short(r)} although it created ${list[0].id}`);
        }
      }
    }
    if (w.stuck) w.fail('never-completed', 'retries never completed');
    for (const op of w.ops) {
      const want = op.intent.key ?? undefined;
      let posts = 0;
      for (const ex of op.exchanges) {
        const got = ex.headers['idempotency-key'];
        if (ex.method === 'GET') { if (got !== undefined) w.fail('key-on-read', `${op.name} sent the idempotency key with GET ${ex.url}`, op); continue; }
        posts++;
        if (got !== want) w.fail('wrong-key', `${op.name} called with idempotency key ${want} sent ${got}`, op);
      }
      if (posts > 1) w.fail('sent-twice', `one call of ${op.name} sent ${posts} state-changing requests`, op);
    }
  },
};

// Test messages carry a mark, so that effects are counted by what the caller
// meant and not by the key under test.
function stamp(m, a, mark) {
  if (m.startsWith('batch')) {
    if (!a[0].length) a[0].push({ from: 'a@b.co', to: 'c@d.co', subject: 's', text: 't' });
    a[0].forEach((e) => { e.subject = `${mark} x`; });
  } else if (m === 'post') {
    a[0] = '/emails';
    a[1] = { from: 'a@b.co', subject: mark };
  } else if (m === 'emails.receiving.forward') a[0].to = `${mark}@example.com`;
  else a[0].subject = mark;
  const nodes = m.startsWith('batch') ? a[0].map((e) => e.react) : [a[0].react];
  for (const n of nodes) if (n) delete n.fail;
}
async function pursue(w, t, s, proc, disk) {
  try {
    const cfg = w.plan.clients[s.client];
    const rec = (proc.recs ??= {})[s.client] ??= w.makeClient({ ...cfg, mod: proc.mod });
    const attempt = async (tag) => {
      const n = s.attempts++;
      const calm = n >= s.quiet;
      const faultKinds = s.im === 'emails.receiving.forward' ? Object.fromEntries(Object.entries(w.plan.config.net.kinds).filter(([k]) => !['truncate', 'garble', 'trailing', 'emptyOk'].includes(k))) : w.plan.config.net.kinds;
      const p = w.call({ m: s.im, a: s.a, clientRec: rec, task: t.id, id: `i${t.id}.${s.intent}.${n}${tag}`, proc, netCfg: calm ? { pFault: 0, pSlow: 0 } : { kinds: faultKinds } });
      const op = w.ops.at(-1);
      op.intent = s;
      await p;
      if (proc.dead) return;
      s.last = op.value ?? null;
      const v = op.value;
      const ok = op.status === 'resolved' && v && v.error === null;
      if (ok) { s.results.push(v.data); s.done = true; }
      // Attempts made while the network was cut off prove nothing.
      if (w.net.partitioned()) s.cutOff = (s.cutOff ?? 0) + 1;
      // Some answers are final whatever the caller does.
      if (op.status === 'rejected') s.last = String(v?.message ?? v);
      // Only a keyed send is safe to retry.
      if (ok || !s.key) {
        await w.sleep(w.sim.decide(`disk${t.id}.${s.intent}.${n}`, (r) => r.pick([0, 0, 1, 20]), 0));
        if (!proc.dead) { disk.add(s.intent); s.recorded = true; }
      }
      if (op.exchanges.some((e) => e.conflict)) w.sim.probe('conflict');
    };
    for (let k = 0; !proc.dead && !disk.has(s.intent) && s.attempts < 40 + (s.cutOff ?? 0); k++) {
      if (s.twice && k === 0) {
        // Two workers race for the same job.
        w.sim.count('concurrentRetry');
        await Promise.all([attempt('a'), (async () => { if (s.gap) await w.sleep(s.gap); if (!proc.dead) await attempt('b'); })()]);
      } else await attempt('');
      if (proc.dead || disk.has(s.intent)) return;
      await w.sleep(10 * 2 ** Math.min(k, 6));
      // Unparsable raw messages can never be forwarded.
      if (/parse raw/i.test(s.last?.error?.message ?? '')) { s.hopeless = true; disk.add(s.intent); w.sim.probe('unparsable'); return; }
    }
  } catch (e) {
    w.harnessError = e;
  }
}
