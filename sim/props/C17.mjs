// Reads and writes made through any number of clients are linearizable: the
// SDK never serves stale, mixed-up or repeated state.
import { API, epoch, Gen, netCfg } from '../common.mjs';
import { splitUrl } from '../server.mjs';
import { canon, short } from '../gen.mjs';
import { dtime, focused } from '../dict.mjs';

const J = { 'content-type': 'application/json' };
// kind: how to write, read, list and remove one register through the SDK, and
// where its value is in requests (field) and in results (out).
const K = {
  contacts: { ids: 2, alias: true, write: (g, id, v) => ['contacts.update', [{ ...who(g, id), firstName: v }]], read: (g, id) => (g.bool() ? ['contacts.get', [g.bool() ? id.id : id.alias]] : ['contacts.get', [who(g, id)]]), remove: (g, id) => (g.bool() ? ['contacts.remove', [who(g, id)]] : ['contacts.remove', [g.bool() ? id.id : id.alias]]), list: 'contacts.list', field: 'first_name', out: (d) => d.first_name },
  templates: { alias: true, write: (g, id, v) => ['templates.update', [g.bool() ? id.id : id.alias, { name: v }]], read: (g, id) => ['templates.get', [g.bool() ? id.id : id.alias]], remove: (g, id) => ['templates.remove', [g.bool() ? id.id : id.alias]], list: 'templates.list', field: 'name', out: (d) => d.name },
  webhooks: { write: (g, id, v) => ['webhooks.update', [id.id, { endpoint: v }]], read: (g, id) => ['webhooks.get', [id.id]], remove: (g, id) => ['webhooks.remove', [id.id]], list: 'webhooks.list', field: 'endpoint', out: (d) => d.endpoint },
  topics: { write: (g, id, v) => ['topics.update', [{ id: id.id, name: v }]], read: (g, id) => ['topics.get', [id.id]], remove: (g, id) => ['topics.remove', [id.id]], list: 'topics.list', field: 'name', out: (d) => d.name },
  'contact-properties': { write: (g, id, v) => ['contactProperties.update', [{ id: id.id, fallbackValue: v }]], read: (g, id) => ['contactProperties.get', [id.id]], remove: (g, id) => ['contactProperties.remove', [id.id]], list: 'contactProperties.list', field: 'fallback_value', out: (d) => d.fallbackValue },
  events: { write: (g, id, v) => ['events.update', [id.id, { schema: v }]], read: (g, id) => ['events.get', [id.id]], remove: (g, id) => ['events.remove', [id.id]], list: 'events.list', field: 'schema', out: (d) => d.schema },
  automations: { write: (g, id, v) => ['automations.update', [id.id, { name: v }]], read: (g, id) => ['automations.get', [id.id]], remove: (g, id) => ['automations.remove', [id.id]], list: 'automations.list', field: 'name', out: (d) => d.name },
  broadcasts: { write: (g, id, v) => ['broadcasts.update', [id.id, { name: v, ...(g.chance(0.4) ? { react: { ...g.reactNode(), fail: undefined } } : {}) }]], read: (g, id) => ['broadcasts.get', [id.id]], remove: (g, id) => ['broadcasts.remove', [id.id]], list: 'broadcasts.list', field: 'name', out: (d) => d.name },
  emails: { write: (g, id, v) => ['emails.update', [{ id: id.id, scheduledAt: v }]], read: (g, id) => ['emails.get', [id.id]], list: 'emails.list', field: 'scheduled_at', out: (d) => d.scheduled_at },
  domains: { write: (g, id, v) => ['domains.update', [{ id: id.id, trackingSubdomain: v }]], read: (g, id) => ['domains.get', [id.id]], remove: (g, id) => ['domains.remove', [id.id]], list: 'domains.list', field: 'tracking_subdomain', out: (d) => d.tracking_subdomain },
  'api-keys': { write: (g, id, v) => ['apiKeys.update', [id.id, { name: v }]], remove: (g, id) => ['apiKeys.remove', [id.id]], list: 'apiKeys.list', field: 'name', out: (d) => d.name },
  kv: { write: (g, id, v) => ['put', [`/kv/${id.id}`, { v }]], read: (g, id) => ['get', [`/kv/${id.id}`]], remove: (g, id) => ['delete', [`/kv/${id.id}`]], field: 'v', out: (d) => d.v },
};
// Memberships: something that is there or not, and may come back.
Object.assign(K, {
  suppressions: { revive: true, alias: true, write: (g, id) => (g.bool() ? ['suppressions.add', [{ email: id.alias }]] : ['suppressions.batch.add', [{ emails: [id.alias] }]]), read: (g, id) => ['suppressions.get', [id.alias]], remove: (g, id) => (g.bool() ? ['suppressions.remove', [id.alias]] : ['suppressions.batch.remove', [{ emails: [id.alias] }]]), list: 'suppressions.list', out: () => 'on' },
  'contact-segments': { revive: true, write: (g, id) => ['contacts.segments.add', [{ ...cwho(g, id), segmentId: id.id }]], remove: (g, id) => ['contacts.segments.remove', [{ ...cwho(g, id), segmentId: id.id }]], list: 'contacts.segments.list', listArgs: (g, id) => [cwho(g, id)], out: () => 'on' },
  'contact-topics': { revive: true, write: (g, id, v, in_) => ['contacts.topics.update', [{ ...who(g, id.owner), topics: [{ id: id.id, subscription: in_ ? 'opt_in' : 'opt_out' }] }]], remove: null, list: 'contacts.topics.list', listArgs: (g, id) => [who(g, id.owner)], out: (d) => d.subscription },
});
const OWNER = { id: 'c0ffee-0', alias: 'owner+x@example.com' };
const cwho = (g, id) => (g.bool() ? { contactId: id.owner.id } : { email: id.owner.alias });
const who = (g, id) => (g.bool() ? { id: id.id } : { email: id.alias });
const KINDS = Object.keys(K);
const ROOT = (k) => ({ 'contact-properties': 'contactProperties', 'api-keys': 'apiKeys', 'contact-segments': 'contacts', 'contact-topics': 'contacts' })[k] ?? k;

class Registers {
  constructor(w) { this.w = w; this.state = new Map(); }
  key(account, kind, name) {
    const ids = this.w.plan.config.ids;
    const hit = ids.find((x) => x.kind === kind && (x.id === name || this.alias(x) === name));
    return hit ? `${account} ${kind} ${hit.id}` : null;
  }
  // The name a thing has now: names move from one thing to another.
  alias(x) {
    if (!x.alias || !this.swapped) return x.alias;
    return this.w.plan.config.ids.find((y) => y.kind === x.kind && y !== x)?.alias ?? x.alias;
  }
  handle(ex) {
    const s = splitUrl(ex.url, ex.op.clientRec.base);
    const json = (status, o) => ({ status, headers: J, body: JSON.stringify(o) });
    if (!s) return json(404, { name: 'not_found', message: 'no such host', statusCode: 404 });
    const account = ex.headers.authorization?.replace('Bearer ', '');
    let [kind, name] = s.segs;
    if (kind === 'contacts' && ['segments', 'topics'].includes(s.segs[2])) return this.member(ex, s, account, json);
    if (kind === 'suppressions') return this.suppression(ex, s, account, json);
    const k = K[kind];
    if (!k) return json(404, { name: 'not_found', message: 'no such route', statusCode: 404 });
    const rec = (id) => { const key = this.key(account, kind, id); const x = this.w.plan.config.ids.find((y) => key?.endsWith(` ${y.kind} ${y.id}`)); return { id: x?.id ?? id, key, ...(x?.alias ? { [kind === 'contacts' ? 'email' : 'alias']: this.alias(x) } : {}), [k.field]: this.state.get(key), type: 'string', created_at: 'x' }; };
    if (s.segs.length === 1 && ex.method === 'GET') return json(200, { object: 'list', has_more: false, data: this.w.plan.config.ids.filter((x) => x.kind === kind).map((x) => rec(x.id)).filter((x) => x[k.field] !== undefined && x[k.field] !== null) });
    const key = this.key(account, kind, name);
    if (!key) return json(404, { name: 'not_found', message: `unknown ${kind} ${name}`, statusCode: 404 });
    if (!this.state.has(key)) this.state.set(key, 'v0');
    const gone = () => json(404, { name: 'not_found', message: 'register is gone', statusCode: 404 });
    if (this.state.get(key) === null) return gone();
    if (ex.method === 'GET') return json(200, { object: kind, ...rec(name) });
    if (ex.method === 'DELETE') { this.state.set(key, null); return json(200, { object: kind, id: name, deleted: true }); }
    let body = null;
    try { body = JSON.parse(ex.body.text); } catch { return json(422, { name: 'validation_error', message: 'no body', statusCode: 422 }); }
    this.state.set(key, body[k.field]);
    return json(200, { object: kind, id: name });
  }
  member(ex, s, account, json) {
    const kind = `contact-${s.segs[2]}`;
    const mine = this.w.plan.config.ids.filter((x) => x.kind === kind && (x.owner.id === s.segs[1] || x.owner.alias === s.segs[1]));
    if (!mine.length) return json(404, { name: 'not_found', message: `unknown contact ${s.segs[1]}`, statusCode: 404 });
    const k = (x) => `${account} ${kind} ${x.id}`;
    const at = (id) => mine.find((x) => x.id === id);
    if (ex.method === 'GET') return json(200, { object: 'list', has_more: false, data: mine.filter((x) => this.state.get(k(x)) !== null).map((x) => ({ id: x.id, name: 'n', subscription: this.state.get(k(x)) })) });
    if (kind === 'contact-topics') {
      for (const t of JSON.parse(ex.body.text)) { if (!at(t.id)) return json(404, { name: 'not_found', message: `unknown topic ${t.id}`, statusCode: 404 }); this.state.set(k(at(t.id)), t.subscription); }
      return json(200, { id: s.segs[1] });
    }
    const x = at(s.segs[3]);
    if (!x) return json(404, { name: 'not_found', message: `unknown segment ${s.segs[3]}`, statusCode: 404 });
    this.state.set(k(x), ex.method === 'DELETE' ? null : 'on');
    return json(200, { id: x.id, deleted: ex.method === 'DELETE' });
  }
  suppression(ex, s, account, json) {
    const ids = this.w.plan.config.ids.filter((x) => x.kind === 'suppressions');
    const k = (x) => `${account} suppressions ${x.id}`;
    const set = (emails, v) => { for (const e of emails) { const x = ids.find((y) => y.alias === e); if (!x) return json(404, { name: 'not_found', message: `unknown address ${e}`, statusCode: 404 }); this.state.set(k(x), v); } return json(200, { object: 'list', data: emails.map((e) => ({ id: e })) }); };
    const body = ex.body.text ? JSON.parse(ex.body.text) : null;
    if (s.segs[1] === 'batch') return set(body.emails, s.segs[2] === 'add' ? 'on' : null);
    if (s.segs.length === 1) return ex.method === 'POST' ? set([body.email], 'on') : json(200, { object: 'list', has_more: false, data: ids.filter((x) => this.state.get(k(x)) !== null).map((x) => ({ id: x.id, email: x.alias })) });
    const x = ids.find((y) => y.alias === s.segs[1]);
    if (!x) return json(404, { name: 'not_found', message: `unknown address ${s.segs[1]}`, statusCode: 404 });
    if (ex.method === 'DELETE') { this.state.set(k(x), null); return json(200, { deleted: true }); }
    return this.state.get(k(x)) === null ? json(404, { name: 'not_found', message: 'register is gone', statusCode: 404 }) : json(200, { id: x.id, email: x.alias });
  }
}
// What a register holds at first.
const first = (x) => (K[x.kind].revive ? (x.kind === 'contact-topics' ? 'opt_out' : null) : 'v0');

export default {
  id: 'C17',
  keepArgs: true,
  runs: { quick: 10000 },
  gen(r) {
    const accounts = 1 + r.int(2);
    const clients = [];
    for (let i = 0, n = accounts + r.int(3); i < n; i++) clients.push({ key: `re_acct${i % accounts}`, mod: r.chance(0.5) ? 0 : i });
    const near = focused() ? KINDS.filter((k) => focused().some((f) => f.split('.')[0] === ROOT(k))) : [];
    const named = near.length ? near.filter((k) => ['contacts', 'templates'].includes(k)) : ['contacts', 'templates'];
    const moves = named.length > 0 && r.chance(0.15);
    const kinds = moves ? [r.pick(named)] : r.sample(near.length ? near : KINDS, r.pick([1, 1, 2]));
    const ids = [];
    for (const kind of kinds) for (let i = 0, n = moves ? 2 : 1 + r.int(2); i < n; i++) ids.push({ kind, id: `${r.u32().toString(16)}-${i}`, ...(K[kind].alias ? { alias: kind === 'contacts' || kind === 'suppressions' ? `u${i}+x@example.com` : `al-${i}` } : {}), ...(/^contact-(s|t)/.test(kind) ? { owner: OWNER } : {}) });
    // The names of two things are exchanged, as when one is archived and the
    // other takes its place.
    const moving = moves ? Array.from({ length: 1 + r.int(2) }, () => 1 + r.int(90)) : null;
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.2, 0.5]), kinds: { refuse: 3, lostRequest: 2, lostResponse: 4, bodyReset: 3, truncate: 3, garble: 2, trailing: 2, gateway: 4, weirdErr: 2, apiErr: 3, throttle: 2, errBodyReset: 2, stall: 2, stallBody: 2, oddReject: 2, emptyOk: 2 } });
    net.latMax = r.pick([1, 10, 10, 100]);
    const tasks = [];
    let v = 1;
    for (let t = 0, n = 2 + r.int(4); t < n; t++) {
      const g = new Gen(r, { tag: `t${t}`, react: 0.5, wild: 0 });
      const steps = [];
      for (let s = 0, k = 2 + r.int(5); s < k; s++) {
        const id = r.pick(ids);
        const spec = K[id.kind];
        const op = r.weighted([['w', 4], ['r', spec.read ? 5 : 0], ['l', spec.list ? 2 : 0], ['d', spec.remove ? (spec.revive ? 3 : 0.35) : 0]]);
        // Now and then a value that was there before.
        const on = id.kind === 'contact-topics' ? r.pick(['opt_in', 'opt_out']) : 'on';
        const val = spec.revive ? on : r.chance(0.35) ? `v${r.int(Math.min(v, 3))}` : `v${v++}`;
        const [m, a] = op === 'w' ? spec.write(g, id, val, on === 'opt_in') : op === 'r' ? spec.read(g, id) : op === 'l' ? [spec.list, spec.listArgs ? spec.listArgs(g, id) : []] : spec.remove(g, id);
        const st = { m, a: JSON.parse(JSON.stringify(a)), client: r.int(clients.length), n: s, reg: { op, id: id.id, kind: id.kind, v: op === 'w' ? val : null } };
        if (r.chance(0.3)) st.wait = dtime(r, 0.2) ?? r.pick([1, 5, 20]);
        if (r.chance(0.15)) st.bg = true;
        steps.push(st);
      }
      tasks.push({ id: t, start: r.int(20), steps });
    }
    return { config: { epoch: epoch(r), net, ids, ...(moving ? { moving } : {}) }, clients, tasks };
  },
  server: (w) => {
    const s = new Registers(w);
    for (const c of w.plan.clients) for (const x of w.plan.config.ids) s.state.set(`${c.key} ${x.kind} ${x.id}`, first(x));
    return s;
  },
  start(w) {
    w.swaps = [];
    for (const t of w.plan.config.moving ?? []) w.sim.at(t, () => { w.server.swapped = !w.server.swapped; w.sim.count('namesExchanged'); w.sim.note('swap', 'X'); const q = ++w.eventSeq; w.swaps.push({ call: q, ret: q, kind: 'x', op: { id: 'names' } }); }, 'swap');
  },
  check(w) {
    if (w.plan.config.moving) return moved(w);
    const hist = new Map();
    const put = (key, e) => { if (!hist.has(key)) hist.set(key, []); hist.get(key).push(e); };
    for (const op of w.ops) {
      const { reg } = op.step;
      const acct = op.clientRec.cfg.key;
      const key = `${acct} ${reg.kind} ${reg.id}`;
      const out = K[reg.kind].out;
      const v = op.value;
      const ok = op.status === 'resolved' && v?.error === null && v.data;
      const gone = op.status === 'resolved' && v?.error?.message === 'register is gone';
      const e = { call: op.callSeq, ret: op.status === 'pending' ? Infinity : op.retSeq, op, kind: reg.op, v: reg.v };
      if (reg.op === 'l') {
        if (!ok || !Array.isArray(v.data.data)) continue;
        const by = new Map(v.data.data.map((x) => [x.id, x]));
        for (const x of w.plan.config.ids) if (x.kind === reg.kind) put(`${acct} ${x.kind} ${x.id}`, { ...e, kind: 'r', out: by.has(x.id) ? out(by.get(x.id)) : null });
        for (const id of by.keys()) if (!w.plan.config.ids.some((x) => x.id === id)) w.fail('foreign-item', `${op.name} listed ${id}`, op);
        continue;
      }
      if (reg.op === 'r') {
        if (ok) put(key, { ...e, out: out(v.data) });
        else if (gone) put(key, { ...e, out: null });
        continue;
      }
      if (ok) put(key, e);
      else if (gone) put(key, { ...e, kind: 'r', out: null }); // found it removed
      else put(key, { ...e, ret: Infinity, maybe: true });
      if (!ok && op.status === 'resolved' && v?.error && /^unknown /.test(v.error.message)) w.fail('wrong-address', `${op.name}: ${v.error.message}`, op);
    }
    for (const [key, h] of hist) {
      if (h.length > 26) continue;
      w.sim.probe('register-history');
      if (!linearizable(h, first(K0(key)), K[key.split(' ')[1]].revive)) w.fail('not-linearizable', `${key}: ${h.sort((a, b) => a.call - b.call).map((e) => `[${e.call},${e.ret === Infinity ? '∞' : e.ret}] ${e.op.id} ${e.kind}${e.kind === 'w' ? `(${e.v})${e.maybe ? '?' : ''}` : e.kind === 'd' ? (e.maybe ? '?' : '') : `=${short(e.out)}`}`).join('; ')}`, h[0].op);
    }
    if (w.stuck) w.fail('never-settles', 'no progress');
  },
};

// Two things whose names move: one history over both and over who has which name.
function moved(w) {
  const ids = w.plan.config.ids;
  const accts = [...new Set(w.ops.map((o) => o.clientRec.cfg.key))];
  for (const acct of accts) {
    const h = w.swaps.slice();
    for (const op of w.ops) {
      if (op.clientRec.cfg.key !== acct) continue;
      const { reg } = op.step;
      const out = K[reg.kind].out;
      const v = op.value;
      const ok = op.status === 'resolved' && v?.error === null && v.data;
      const gone = op.status === 'resolved' && v?.error?.message === 'register is gone';
      const at = ids.findIndex((x) => x.id === reg.id);
      const text = canon(op.enc);
      const e = { call: op.callSeq, ret: op.status === 'pending' ? Infinity : op.retSeq, op, kind: reg.op, v: reg.v, at, named: text.includes(JSON.stringify(ids[at].alias)) };
      if (!ok && op.status === 'resolved' && v?.error && /^unknown /.test(v.error.message)) w.fail('wrong-address', `${op.name}: ${v.error.message}`, op);
      if (reg.op === 'l') {
        if (!ok || !Array.isArray(v.data.data)) continue;
        h.push({ ...e, outs: ids.map((x) => { const y = v.data.data.find((z) => z.id === x.id); return y ? out(y) ?? null : null; }) });
      } else if (reg.op === 'r') {
        if (ok) h.push({ ...e, out: out(v.data), id: v.data.id });
        else if (gone) h.push({ ...e, out: null });
      } else if (ok) h.push(e);
      else if (gone) h.push({ ...e, kind: 'r', out: null });
      else h.push({ ...e, ret: Infinity, maybe: true });
    }
    if (h.length > 22) continue;
    w.sim.probe('names-move-history');
    // State: what each holds, and whether the names are exchanged.
    const apply = (state, e) => {
      const s = JSON.parse(state);
      if (e.kind === 'x') { s[2] = !s[2]; return JSON.stringify(s); }
      if (e.outs) return e.outs[0] === s[0] && e.outs[1] === s[1] ? state : undefined;
      const i = e.named && s[2] ? 1 - e.at : e.at;
      if (e.kind === 'r') return (e.out ?? null) === s[i] && (e.id === undefined || e.id === ids[i].id) ? state : undefined;
      if (s[i] === null) return undefined;
      s[i] = e.kind === 'w' ? e.v : null;
      return JSON.stringify(s);
    };
    if (!explains(h, JSON.stringify(['v0', 'v0', false]), apply)) w.fail('not-linearizable', `${acct} ${ids[0].kind} whose names move: ${h.sort((a, b) => a.call - b.call).map((e) => `[${e.call},${e.ret === Infinity ? '∞' : e.ret}] ${e.op.id} ${e.kind}${e.at ?? ''}${e.named ? 'n' : ''}${e.kind === 'w' ? `(${e.v})${e.maybe ? '?' : ''}` : e.kind === 'd' ? (e.maybe ? '?' : '') : e.kind === 'x' ? '' : `=${short(e.outs ?? e.out)}`}`).join('; ')}`, h.find((e) => e.op.name)?.op);
  }
}

// Wing and Gong: is there an order, respecting real time, in which a single
// register explains every result? Writes whose outcome is unknown may be left out.
const K0 = (key) => ({ kind: key.split(' ')[1] });
export function linearizable(h, start = 'v0', revive = false) {
  return explains(h, start, (state, e) => {
    if (e.kind === 'r') return (e.out ?? null) === (state ?? null) ? state : undefined;
    if (state === null && !revive) return undefined;
    return e.kind === 'w' ? e.v : null;
  });
}
function explains(h, start, apply) {
  const n = h.length;
  const seen = new Set();
  const must = h.reduce((m, e, i) => (e.maybe ? m : m | (1 << i)), 0);
  const go = (done, state) => {
    if ((done & must) === must) return true;
    const k = `${done}|${state}`;
    if (seen.has(k)) return false;
    seen.add(k);
    let minRet = Infinity;
    for (let i = 0; i < n; i++) if (!(done & (1 << i)) && h[i].ret < minRet) minRet = h[i].ret;
    for (let i = 0; i < n; i++) {
      if (done & (1 << i) || h[i].call > minRet) continue;
      const e = h[i];
      const next = apply(state, e);
      if (next === undefined) continue;
      if (go(done | (1 << i), next)) return true;
    }
    return false;
  };
  return go(0, start);
}
export { API };
