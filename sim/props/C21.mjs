// A client has no memory: after any history of calls and failures, the next
// call behaves like the first call of a brand-new client.
import { ALL, API, callTasks, epoch, Gen, netCfg, simpleClients } from '../common.mjs';
import { canon, short, viaJson } from '../gen.mjs';
import { real } from '../core.mjs';
import { address, compareOutcome, expected, payload, query } from '../oracle.mjs';
import { renderFails } from './C01.mjs';
import { ownTime } from './C18.mjs';
import { dnum, dtime, inFocus } from '../dict.mjs';

export default {
  id: 'C21',
  runs: { quick: 8800 },
  nontrivialRule: 'a used client was compared with a new one',
  gen(r) {
    const clients = simpleClients(r, 1 + r.int(2));
    const net = netCfg(r, { pFault: r.pick([0, 0.3, 0.7, 1]) });
    const names = r.chance(0.5) ? r.sample(inFocus(ALL), 4) : inFocus(ALL);
    const gen = { wild: 0.2, react: 0.15, invalid: 0.1, opts: 0.5, wildId: 0.2 };
    const tasks = callTasks(r, { names, clients: clients.length, gen });
    if (r.chance(0.04)) {
      // A long-lived client: hundreds of calls before the comparison.
      const lg = new Gen(r, { tag: 'l', ...gen });
      const few = r.sample(names, Math.min(names.length, 3));
      tasks[0].steps.push(...Array.from({ length: dnum(r, 0.4, 5, 1300) ?? r.pick([60, 150, 400, 1100]) }, (_, n) => { const m = r.pick(few); return { m, a: API[m].gen(lg), client: 0, n: 100 + n, bg: r.chance(0.2) }; }));
    }
    const g = new Gen(r, { tag: 'p', ...gen });
    const past = tasks.flatMap((t) => t.steps).filter((s) => s.m);
    const probes = Array.from({ length: 3 + r.int(6) }, () => {
      // Often the very same call again.
      if (r.chance(0.5) && past.length) { const s = r.pick(past); return { m: s.m, a: structuredClone(s.a) }; }
      const m = r.pick(names);
      return { m, a: API[m].gen(g) };
    });
    for (const p of probes) { p.client = r.int(clients.length); p.faulty = r.chance(0.4); p.freshFirst = r.chance(0.3); p.reuse = r.chance(0.3); p.env = r.pick(['test', 'production']); if (r.chance(0.1)) p.idle = dtime(r, 0.4) ?? r.pick([1000, 61_000, 301_000, 3_600_001, 86_400_001, 2_592_000_000]); }
    tasks.push({ id: 'probe', start: 30_000, steps: probes.map((probe) => ({ probe })) });
    return { config: { scribble: r.chance(0.3), epoch: epoch(r), net }, clients, tasks };
  },
  async step(w, t, s, i) {
    const { probe } = s;
    // Faults stop: the history has been lived through.
    for (let nap = 5000; w.running > 1 || w.ops.some((o) => o.status === 'pending'); nap *= 1.5) await w.sleep(nap);
    if (probe.idle) await w.sleep(probe.idle);
    const used = w.clients[probe.client];
    const fresh = w.makeClient({ ...w.plan.clients[probe.client], mod: `fresh${i}` });
    if (!used?.client || !fresh.client) return;
    w.nontrivial = true;
    const go = async (rec, tag) => {
      const l0 = w.sim.logs.length;
      const t0 = w.sim.now;
      await w.call({ m: probe.m, a: probe.a, clientRec: rec, task: 'p', id: `p${tag}${i}`, netKey: `pr${i}`, args: tag === 'u' && probe.reuse ? w.argsOf({ m: probe.m, a: probe.a, reuse: true }) : undefined, netCfg: probe.faulty ? { pFault: 0.6 } : { pFault: 0, pSlow: 0 } });
      const op = w.ops.at(-1);
      return { op, took: Math.round((w.sim.now - t0) * 1000), logs: w.sim.logs.length - l0 };
    };
    const two = probe.freshFirst ? [['f', fresh], ['u', used]] : [['u', used], ['f', fresh]];
    const got = {};
    for (const [tag, rec] of two) got[tag] = await go(rec, tag);
    (w.pairs ??= []).push(got);
  },
  check(w) {
    if (w.stuck) w.fail('never-settles', 'no progress');
    // Nothing in a long history is special either.
    for (const op of w.ops) {
      for (const [k, m] of ownTime(w, op)) w.fail(`remembers:${k}`, m, op);
      if (op.spec.composite || op.status === 'pending' || renderFails(op)) continue;
      const exp = expected(op);
      const ex = op.exchanges[0];
      if (exp.local || !ex) continue;
      const last = op.exchanges.at(-1);
      for (const [k, m] of [...address(op, ex, exp), ...query(op, ex, exp), ...payload(op, ex, exp), ...(last.delivered ? compareOutcome(op, last) : [])]) w.fail(`remembers:${k}`, `${op.name}: ${m}`, op);
    }
    for (const { u, f } of w.pairs ?? []) {
      w.sim.probe('compared');
      const a = seen(u);
      const b = seen(f);
      for (const k of Object.keys(a)) if (canon(a[k]) !== canon(b[k])) { w.fail(`remembers:${k}`, `${u.op.name} on a used client: ${k} ${short(a[k], 400)}; on a new client: ${short(b[k], 400)}`, u.op); break; }
    }
  },
};
const form = (h) => { const { 'content-type': ct, ...rest } = h; return /^multipart/.test(ct ?? '') ? rest : h; };
function seen({ op, took, logs }) {
  return {
    requests: op.exchanges.map((e) => ({ method: e.method, url: e.url, headers: form(e.headers), body: e.body.kind === 'form' ? e.body.entries : e.body.text ?? null })),
    status: op.status,
    result: op.status === 'resolved' ? strip(viaJson(op.value)) : op.value instanceof Error ? op.value.message : String(op.value),
    duration: took,
    logs,
  };
}
const strip = (v) => v ?? null;
export { real };
