// Per-call headers.
import { callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { expected, headers, optionsOf, wantHeaders } from '../oracle.mjs';
import { renderFails } from './C01.mjs';
import { API } from '../api.mjs';

const KNOWN = new Set(['authorization', 'user-agent', 'content-type', 'idempotency-key', 'x-batch-validation', 'x-custom', 'x-trace-id', 'x-entity-ref-id', 'accept', 'traceparent', 'x-empty', 'cookie', 'accept-language', 'x-forwarded-for', 'if-match', 'x-long', 'prefer']);
const WITH = SINGLE.filter((n) => API[n].optsAt !== undefined);
export default {
  id: 'C16',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.3]) });
    return { config: { epoch: epoch(r), net }, clients, tasks: callTasks(r, { names: r.chance(0.7) ? WITH : SINGLE, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.1, opts: r.pick([0.4, 0.9]), invalid: 0, react: r.pick([0, 0, 0.3]) } }) };
  },
  check(w) {
    for (const op of w.ops) {
      const rec = op.clientRec;
      rec.key = rec.cfg.key;
      rec.ua = rec.client.userAgent;
      if (renderFails(op) || expected(op).local) continue;
      const want = wantHeaders(op);
      for (const ex of op.exchanges) {
        const got = Object.fromEntries(Object.entries(ex.headers).filter(([k]) => KNOWN.has(k) || Object.hasOwn(want, k)));
        if (ex.body.kind === 'none' && got['content-type'] === undefined) delete want['content-type'];
        for (const [k, m] of headers(op, { headers: got }, want)) w.fail(k, `${op.name}: ${m} (options ${JSON.stringify(op.enc[op.spec.optsAt] ?? null)})`, op);
      }
      if (optionsOf(op)?.headers) w.sim.probe(`headers-${Array.isArray(optionsOf(op).headers) ? 'tuples' : optionsOf(op).headers instanceof Headers ? 'Headers' : 'object'}`);
    }
  },
};
