// Creating (or duplicating) a template and publishing it in one go.
import { API, epoch, Gen, netCfg, simpleClients } from '../common.mjs';
import { address, compareOutcome, outcome, payload, isObj } from '../oracle.mjs';
import { canon, decode, sameJson, short, viaJson } from '../gen.mjs';
import { EchoServer } from '../server.mjs';
import { D, dstr } from '../dict.mjs';

export default {
  id: 'C09',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0.2, 0.5]) });
    const tasks = [];
    const nT = r.pick([1, 2, 4, 8]);
    for (let t = 0; t < nT; t++) {
      const g = new Gen(r, { tag: `t${t}`, react: r.pick([0, 0.5]), wild: 0.3, wildId: r.pick([0, 0.5]) });
      const steps = [];
      for (let s = 0, n = 1 + r.int(4); s < n; s++) {
        const m = r.pick(['templates.create', 'templates.create', 'templates.duplicate']);
        const uses = [];
        for (let u = 0, k = 1 + r.int(4); u < k; u++) uses.push({ use: r.pick(['publish', 'publish', 'await']), wait: r.chance(0.5) ? 0 : r.pick([0.5, 5, 200, 5000]), seq: r.chance(0.4) });
        if (r.chance(0.1)) uses.length = 0; // fire and forget
        const st = { chainOf: m, a: API[m].gen(g), uses, client: r.int(clients.length) };
        if (r.chance(0.3)) st.wait = r.pick([1, 10, 500]);
        if (r.chance(0.5)) st.bg = true;
        steps.push(st);
      }
      tasks.push({ id: t, start: r.chance(0.5) ? 0 : r.int(50), steps });
    }
    return { config: { epoch: epoch(r), net }, clients, tasks };
  },
  server(w) {
    return new EchoServer(w.sim, { base: (ex) => ex.op?.clientRec?.base ?? 'https://api.resend.com', body: (ex, s, kind, mark, r) => (/templates$|duplicate$/.test(ex.url.split('?')[0]) && ex.method === 'POST' ? { object: 'template', id: r.pick([mark, `${r.u32().toString(16)}-4f9a`, String(r.int(99))]), ...(r.chance(0.4) ? r.pick([{ alias: 'welcome' }, { alias: null }, { name: 'n', slug: 's' }, { template_id: 'other' }, { template: { id: 'inner' } }, { data: { id: 'inner' } }, { status: 'draft', version: 3 }, { published_at: '2026-01-01' }, { _id: 'x', uuid: 'y' }, D.k.length ? { [r.pick(D.k.filter((k) => k !== 'id').concat('x'))]: dstr(r, 0.8) ?? 'z' } : { current: true }]) : {}) } : null) });
  },
  async step(w, t, s, i, proc) {
    const rec = w.clients[s.client];
    const id = `t${t.id}s${i}`;
    let chain = null;
    const make = w.call({ m: s.chainOf, a: s.a, clientRec: rec, task: t.id, id, proc, fn: (op) => { chain = API[s.chainOf].path.slice(0, -1).reduce((o, k) => o[k], rec.client)[API[s.chainOf].path.at(-1)](...op.args); return chain; } });
    w.ops.at(-1).creates = true;
    const head = w.ops.at(-1);
    head.uses = [];
    const all = [make];
    let n = 0;
    for (const u of s.uses) {
      if (u.wait) await w.sleep(u.wait);
      if (!chain) break;
      const p = u.use === 'publish' && typeof chain.publish === 'function'
        ? w.call({ m: s.chainOf, a: s.a, clientRec: rec, task: t.id, id: `${id}u${n++}`, proc, fn: () => chain.publish() })
        : w.call({ m: s.chainOf, a: s.a, clientRec: rec, task: t.id, id: `${id}u${n++}`, proc, fn: async () => await chain });
      const uop = w.ops.at(-1);
      uop.headOp = head;
      uop.use = u.use;
      head.uses.push(uop);
      all.push(p);
      if (u.seq) await p;
    }
    if (chain && typeof chain.publish !== 'function') w.fail('not-chainable', `${s.chainOf} returned something without publish()`, head);
    if (chain && typeof chain.then !== 'function') w.fail('not-awaitable', `${s.chainOf} returned something that cannot be awaited`, head);
    await Promise.all(all);
  },
  check(w) {
    for (const op of w.ops) {
      if (!op.creates) continue;
      const renderFail = (op.spec.reactAt?.(decode(op.enc)) ?? []).some((n) => n?.props.sim.fail);
      const all = [op, ...op.uses].flatMap((o) => o.exchanges);
      const exp = op.spec.req(decode(op.enc));
      const isCreate = (ex) => ex.method === exp.method && !address(op, ex, exp).length;
      const creates = all.filter(isCreate);
      const rest = all.filter((e) => !isCreate(e));
      if (renderFail) {
        if (all.length) w.fail('request-despite-render-failure', `${op.name} sent ${all.length} requests`, op);
        for (const u of [op, ...op.uses]) if (u.status === 'resolved' && !(isObj(u.value) && u.value.data === null && u.value.error)) w.fail('failure-reported-as-success', `${u.use ?? 'await'} gave ${short(u.value)} although the template could not be rendered`, u);
        continue;
      }
      if (creates.length !== 1) { w.fail(creates.length ? 'created-twice' : 'never-created', `${op.name}: ${creates.length} requests for one call with ${op.uses.map((u) => u.use).join(', ')}: ${all.map((e) => `${e.method} ${e.url}`).join('; ')}`, op); continue; }
      const ex = creates[0];
      for (const [k, m] of payload(op, ex, exp)) w.fail(k, `${op.name}: ${m}`, op);
      const o = outcome(ex);
      for (const u of [op, ...op.uses.filter((x) => x.use === 'await')]) {
        if (u.status === 'pending') { w.fail('never-settles', `awaiting ${op.name} never settled`, u); continue; }
        if (!ex.delivered) continue;
        for (const [k, m] of compareOutcome(u, ex)) w.fail(`create:${k}`, `${op.name}: ${m}`, u);
      }
      const pubs = op.uses.filter((u) => u.use === 'publish');
      const wantPubs = o.kind === 'data' ? pubs.length : 0;
      if (rest.length !== wantPubs) { w.fail(rest.length > wantPubs ? 'unexpected-publish' : 'never-published', `${op.name}: ${rest.length} further requests for ${pubs.length} publish() calls after the template was ${o.kind === 'data' ? '' : 'not '}created: ${rest.map((e) => `${e.method} ${e.url}`).join('; ')}`, op); continue; }
      for (const u of pubs) {
        if (u.status === 'pending') { w.fail('never-settles', `publish() after ${op.name} never settled`, u); continue; }
        if (o.kind !== 'data') {
          w.sim.probe('create-failed-publish-skipped');
          if (u.status !== 'resolved' || !isObj(u.value) || u.value.data !== null) w.fail('failure-reported-as-success', `publish() gave ${u.status} ${short(u.value)} although ${op.name} failed`, u);
          else if (op.status === 'resolved' && !sameJson(viaJson(u.value.error), viaJson(op.value.error))) w.fail('error-not-verbatim', `publish() reported ${short(u.value.error)} although ${op.name} reported ${short(op.value.error)}`, u);
          continue;
        }
        const px = u.exchanges[0];
        if (u.exchanges.length !== 1) { w.fail('publish-count', `one publish() made ${u.exchanges.length} requests`, u); continue; }
        const want = { method: 'POST', segs: ['templates', o.data.id, 'publish'], q: [] };
        for (const [k, m] of address(u, px, want)) w.fail(`publish:${k}`, `publish() after ${op.name}: ${m}`, u);
        if (px.tSend < ex.tDone) w.fail('published-early', `published before ${op.name} had finished`, u);
        if (px.delivered) for (const [k, m] of compareOutcome(u, px)) w.fail(`publish:${k}`, `publish(): ${m}`, u);
        w.sim.probe('published');
      }
    }
    for (const m of w.sim.rejections) { const known = w.ops.some((o) => o.creates && (o.spec.reactAt?.(o.args) ?? []).some((n) => n?.props.sim.fail)); if (!known) w.fail('unhandled-rejection', m); }
    if (w.stuck) w.fail('never-settles', 'no progress');
  },
};
export { canon };
