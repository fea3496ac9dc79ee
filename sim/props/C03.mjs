// Failures are reported as what happened.
import { callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { checkSingle } from './C02.mjs';

export default {
  id: 'C03',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0.5, 0.9, 1]) });
    return { config: { scribble: r.chance(0.3), epoch: epoch(r), net, env: { NODE_ENV: r.pick(['test', 'production']) } }, clients, tasks: callTasks(r, { names: SINGLE, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.2, react: 0.05, invalid: 0, opts: 0.2 } }) };
  },
  check: (w) => checkSingle(w, ['error']),
};
