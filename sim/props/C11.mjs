// Paging through a list visits every item once, in order.
import { API, epoch, Gen, LISTS, netCfg } from '../common.mjs';
import { splitUrl } from '../server.mjs';
import { Rng } from '../core.mjs';
import { short } from '../gen.mjs';
import { expected } from '../oracle.mjs';
import { decode } from '../gen.mjs';
import { dnum, dtime, inFocus } from '../dict.mjs';

const NAMES = LISTS.filter((n) => !API[n].nopage);
const J = { 'content-type': 'application/json' };
const PAGING = new Set(['limit', 'after', 'before']);
const ODD = ['+', '/', '=', '&', '#', '?', '%', ' ', '%2B', '東', "'", ';', ','];

// Collections are newest first. A cursor stays valid after its item is deleted.
class ListServer {
  constructor(w) {
    this.w = w;
    this.cols = new Map();
  }
  col(account, path) {
    const k = `${account} ${path}`;
    if (!this.cols.has(k)) {
      const r = new Rng(this.w.sim.seed, 'col', k);
      const n = dnum(r, 0.3, 0, 300) ?? r.weighted([[0, 1], [1, 1], [3, 2], [7, 3], [20, 2], [21, 2], [45, 2], [250, 0.3]]);
      const c = { items: [], seq: 0, odd: r.chance(0.4), short: r.chance(0.3), k };
      this.cols.set(k, c);
      for (let i = 0; i < n; i++) this.insert(c);
    }
    return this.cols.get(k);
  }
  insert(c) {
    const n = c.seq++;
    const r = new Rng(this.w.sim.seed, c.k, n);
    const id = c.odd ? `${r.pick(ODD)}${n}${r.pick(ODD)}${r.u32().toString(36)}${r.pick(ODD)}` : `${r.u32().toString(16)}-${n}`;
    c.items.unshift({ id, n, born: this.w.sim.now, died: null, tag: r.pick(['a', 'b']), key: 'k', type: 'string', created_at: '2026', fallback_value: null });
  }
  handle(ex) {
    const s = splitUrl(ex.url, ex.op.clientRec.base);
    if (!s) return { status: 404, headers: {}, body: '{}' };
    const q = new URLSearchParams(s.q);
    const c = this.col(ex.headers.authorization, s.segs.join('/'));
    const filters = s.q.filter(([k]) => !PAGING.has(k)).map(([k, v]) => `${k}=${v}`).sort().join('&');
    const limit = q.has('limit') ? Number(q.get('limit')) : 20;
    const live = c.items.filter((i) => i.died === null && (!filters || match(i, filters)));
    const find = (id) => c.items.find((i) => i.id === id);
    const err = (m) => ({ status: 422, headers: J, body: JSON.stringify({ statusCode: 422, name: 'validation_error', message: m }) });
    if (!Number.isInteger(limit) || limit < 1 || limit > 1000) return err('bad limit');
    // A server may hand out less than was asked for, with more to come.
    const cut = (l) => (c.short && l.length > 1 ? Math.min(limit, 1 + new Rng(this.w.sim.seed, c.k, l.length, limit).int(limit)) : limit);
    let page;
    let more;
    if (q.has('after') && q.has('before')) return err('both cursors');
    if (q.has('after')) {
      const cur = find(q.get('after'));
      if (!cur) return err(`unknown cursor ${q.get('after')}`);
      const rest = live.filter((i) => i.n < cur.n);
      page = rest.slice(0, cut(rest));
      more = rest.length > page.length;
    } else if (q.has('before')) {
      const cur = find(q.get('before'));
      if (!cur) return err(`unknown cursor ${q.get('before')}`);
      const rest = live.filter((i) => i.n > cur.n);
      page = rest.slice(-cut(rest));
      more = rest.length > page.length;
    } else {
      page = live.slice(0, cut(live));
      more = live.length > page.length;
    }
    return { status: 200, headers: J, body: JSON.stringify({ object: 'list', has_more: more, data: page.map(({ id, n, key, type, created_at, fallback_value }) => ({ id, n, key, type, created_at, fallback_value })) }) };
  }
}
// Which items a filter selects: arbitrary, but fixed by filter and item.
const match = (i, filters) => new Rng('f', filters, i.n).chance(0.6);

export default {
  id: 'C11',
  runs: { quick: 10000 },
  nontrivialRule: 'items were inserted or deleted while a walk was under way',
  gen(r) {
    const accounts = 1 + r.int(2);
    const bases = r.pick([undefined, 'http://localhost:3999/proxy/v1']);
    const clients = Array.from({ length: accounts }, (_, i) => ({ key: `re_${i}_${r.u32().toString(36)}`, mod: 0, ...(bases ? { options: { baseUrl: bases } } : {}) }));
    const net = netCfg(r, { pFault: r.pick([0, 0.2, 0.5]) });
    const tasks = [];
    const focus = r.sample(inFocus(NAMES), r.pick([1, 2, 6]));
    const g0 = new Gen(r, { wild: 0.4, wildId: r.pick([0, 0.3]), invalid: 0 });
    const shared = r.chance(0.5) ? API[focus[0]].gen(g0) : null;
    for (let t = 0, n = 1 + r.int(4); t < n; t++) {
      const g = new Gen(r, { wild: 0.4, wildId: r.pick([0, 0.3]), invalid: 0 });
      const steps = [];
      for (let s = 0, k = 1 + r.int(2); s < k; s++) {
        const m = shared && r.chance(0.5) ? focus[0] : r.pick(focus);
        const a = shared && m === focus[0] ? structuredClone(shared) : API[m].gen(g);
        const o = a.at(-1);
        if (o && typeof o === 'object') for (const f of PAGING) delete o[f];
        steps.push({ walk: m, a, limit: dnum(r, 0.3, 1, 1000) ?? r.weighted([[null, 2], [1, 1], [2, 2], [3, 2], [20, 1], [100, 1], [101, 0.5], [250, 0.5], [1000, 0.3]]), dir: r.pick(['after', 'after', 'before', 'both']), client: r.int(accounts), churn: r.chance(0.4) ? r.pick([0.2, 0.6]) : 0, pause: dtime(r, 0.2, 3_600_000) ?? r.pick([0, 0, 5, 100]) });
      }
      tasks.push({ id: t, start: r.int(30), steps });
    }
    return { config: { epoch: epoch(r), net, maxSteps: 60000 }, clients, tasks };
  },
  server: (w) => { w.lists = new ListServer(w); w.walks = []; return w.lists; },
  async step(w, t, s, i, proc) {
    const rec = w.clients[s.client];
    const walk = { s, id: `t${t.id}s${i}`, seen: [], start: w.sim.now, failed: null, rec };
    w.walks.push(walk);
    let n = 0;
    const page = async (extra) => {
      for (let tries = 0; ; tries++) {
        const a = withPage(s, extra);
        const p = w.call({ m: s.walk, a, clientRec: rec, task: t.id, id: `${walk.id}.${n++}`, proc, netCfg: tries >= 4 ? { pFault: 0, pSlow: 0 } : null });
        const op = w.ops.at(-1);
        await p;
        walk.path = op.exchanges[0] ? splitUrl(op.exchanges[0].url, rec.base)?.segs.join('/') : walk.path;
        const v = op.value;
        if (op.status === 'resolved' && v && v.error === null && Array.isArray(v.data?.data)) return v.data;
        if (tries > 12) { walk.failed = `${op.status} ${short(v)}`; return null; }
        await w.sleep(20 * 2 ** Math.min(tries, 10));
      }
    };
    const churn = () => {
      if (!s.churn || !walk.path) return;
      const c = w.lists.col(`Bearer ${rec.cfg.key}`, walk.path);
      const r = new Rng(w.sim.seed, walk.id, n, 'churn');
      if (!r.chance(s.churn)) return;
      w.nontrivial = true;
      if (r.chance(0.5)) { w.lists.insert(c); w.sim.count('concurrentInsert'); } else {
        const live = c.items.filter((x) => x.died === null);
        if (live.length) { (r.chance(0.4) ? live.find((x) => x.id === walk.seen.at(-1)?.id) ?? r.pick(live) : r.pick(live)).died = w.sim.now; w.sim.count('concurrentDelete'); }
      }
    };
    // Forward from the newest item; and, for 'before', back up from the oldest.
    let cur = null;
    const forward = [];
    for (let k = 0; k < 400; k++) {
      const p = await page(cur ? { after: cur } : {});
      if (!p) return;
      forward.push(...p.data);
      walk.seen = forward;
      if (!p.data.length || !p.has_more) { walk.ended = true; break; }
      cur = p.data.at(-1).id;
      churn();
      if (s.pause) await w.sleep(s.pause);
    }
    walk.end = w.sim.now;
    if (s.dir === 'after' || !forward.length) return;
    walk.back = { start: w.sim.now, seen: [], from: forward.at(-1).id };
    cur = walk.back.from;
    for (let k = 0; k < 400; k++) {
      const p = await page({ before: cur });
      if (!p) return;
      walk.back.seen.unshift(...p.data);
      if (!p.data.length || !p.has_more) { walk.back.ended = true; break; }
      cur = p.data[0].id;
      churn();
    }
    walk.back.end = w.sim.now;
  },
  check(w) {
    for (const k of w.walks) {
      const what = `${k.s.walk} with limit ${k.s.limit ?? 'default'}`;
      if (k.failed) { w.fail('walk-failed', `${what}: a page kept failing without faults: ${k.failed}`); continue; }
      if (w.stuck) { w.fail('walk-never-ends', what); continue; }
      if (!k.ended) { w.fail('walk-never-ends', `${what} was still going after ${k.seen.length} items`); continue; }
      judge(w, k, k.seen, k.start, k.end, () => true, what);
      w.sim.probe('walk');
      if (k.back?.end) { const c = colOf(w, k); const from = c.items.find((x) => x.id === k.back.from); judge(w, k, k.back.seen, k.back.start, k.back.end, (it) => it.n > from.n, `${what} walking back`); w.sim.probe('walk-back'); }
    }
  },
};
function colOf(w, k) {
  const exp = expectedPath(k);
  return w.lists.col(`Bearer ${k.rec.cfg.key}`, exp.join('/'));
}
function expectedPath(k) { return API[k.s.walk].req(decode(k.s.a)).segs; }
function filtersOf(k) {
  return API[k.s.walk].req(decode(k.s.a)).q.filter(([x]) => !PAGING.has(x)).map(([x, v]) => `${x}=${v}`).sort().join('&');
}
function judge(w, k, seen, start, end, range, what) {
  const c = colOf(w, k);
  const filters = filtersOf(k);
  const ids = seen.map((x) => x.id);
  if (new Set(ids).size !== ids.length) w.fail('item-twice', `${what} returned an item twice: ${short(ids)}`);
  for (let i = 1; i < seen.length; i++) { const a = c.items.find((x) => x.id === ids[i - 1]); const b = c.items.find((x) => x.id === ids[i]); if (!a || !b) { w.fail('foreign-item', `${what} returned an item of another collection`); return; } if (b.n >= a.n) { w.fail('wrong-order', `${what} returned ${short(ids)}`); break; } }
  const got = new Set(ids);
  for (const it of c.items) {
    if (!range(it)) continue;
    const sel = !filters || match(it, filters);
    const throughout = it.born <= start && (it.died === null || it.died > end);
    if (throughout && sel && !got.has(it.id)) { w.fail('item-missed', `${what} missed ${it.id}, which was there all along (${seen.length} of ${c.items.length} items seen)`); break; }
    if (!sel && got.has(it.id)) { w.fail('filter-ignored', `${what} returned ${it.id}, which the filter ${filters} excludes`); break; }
  }
  for (const id of ids) if (!c.items.some((x) => x.id === id)) { w.fail('foreign-item', `${what} returned ${id}, which is not in the collection`); break; }
}
function withPage(s, extra) {
  const a = structuredClone(s.a);
  const o = { ...(s.limit ? { limit: s.limit } : {}), ...extra };
  const last = a.at(-1);
  if (!Object.keys(o).length) return a;
  if (last && typeof last === 'object' && !last.$) Object.assign(last, o);
  else a.push(o);
  return a;
}
export { expected };
