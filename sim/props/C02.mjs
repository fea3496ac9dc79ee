// Success is reported exactly when a complete success response arrived, and
// then it is that response.
import { callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { compareOutcome, outcome } from '../oracle.mjs';

export default {
  id: 'C02',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0.1, 0.4, 0.8]), kinds: { truncate: 5, bodyReset: 5, garble: 4, trailing: 4, stallBody: 2, emptyOk: 3, gateway: 2, apiErr: 2, dup: 2, refuse: 1, lostResponse: 1 } });
    return { config: { scribble: r.chance(0.3), epoch: epoch(r), net }, clients, tasks: callTasks(r, { names: SINGLE, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.2, react: 0.05, invalid: 0, opts: 0.2 } }) };
  },
  check: (w) => checkSingle(w, ['data']),
};
export function checkSingle(w, parts) {
  for (const op of w.ops) {
    if (op.spec.composite || op.status === 'pending' || op.exchanges.length !== 1) continue;
    const ex = op.exchanges[0];
    if (!ex.delivered) continue;
    const o = outcome(ex);
    w.sim.probe(`${o.kind}`);
    for (const [k, m] of compareOutcome(op, ex, parts)) w.fail(k, `${op.name}: ${m}`, op);
  }
}
