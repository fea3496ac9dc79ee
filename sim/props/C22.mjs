// Query options reach the server exactly.
import { callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { expected, query, address } from '../oracle.mjs';
import { API } from '../api.mjs';

const NAMES = SINGLE.filter((n) => (API[n].kind === 'list' || API[n].kind === 'cplist' || API[n].filters) && !API[n].nopage);
export default {
  id: 'C22',
  runs: { quick: 14000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.3]) });
    return { config: { epoch: epoch(r), net }, clients, tasks: callTasks(r, { names: NAMES, clients: clients.length, gen: { wild: r.pick([0.2, 0.8]), wildId: r.pick([0, 0.6]), invalid: 0 } }) };
  },
  check(w) {
    for (const op of w.ops) {
      const exp = expected(op);
      if (exp.local) continue;
      for (const ex of op.exchanges) for (const [k, m] of [...query(op, ex, exp), ...address(op, ex, exp)]) w.fail(k, `${op.name}: ${m}`, op);
      if (op.invalid) w.fail('invalid-request', `${op.name}(${JSON.stringify(op.enc)}) produced a URL that cannot be fetched`, op);
    }
  },
};
