// Every call addresses exactly the resource it names.
import { callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { address, expected } from '../oracle.mjs';
import { renderFails } from './C01.mjs';
import { API } from '../api.mjs';

const NAMES = SINGLE.filter((n) => !API[n].raw);
const IDENT = NAMES.filter((n) => API[n].ident);
export default {
  id: 'C14',
  runs: { quick: 14000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.3]) });
    return { config: { epoch: epoch(r), net }, clients, tasks: callTasks(r, { names: r.chance(0.6) ? IDENT : NAMES, clients: clients.length, gen: { wild: 0.2, wildId: r.pick([0, 0.6, 1]), invalid: 0, opts: 0.1 } }) };
  },
  check(w) {
    for (const op of w.ops) {
      if (renderFails(op)) continue;
      const exp = expected(op);
      if (exp.local) continue;
      for (const ex of op.exchanges) for (const [k, m] of address(op, ex, exp)) w.fail(k, `${op.name}: ${m}`, op);
      if (op.invalid) w.fail('invalid-address', `${op.name}(${JSON.stringify(op.enc)}) produced a URL that cannot be fetched`, op);
    }
  },
};
