// Writes carry exactly the caller's values.
import { API, callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { expected, payload } from '../oracle.mjs';
import { renderFails } from './C01.mjs';

const NAMES = SINGLE.filter((n) => n !== 'contacts.imports.create' && !/\.(get|list|recipients|clickedLinks|metrics)$/.test(n) && n !== 'get');
export default {
  id: 'C13',
  runs: { quick: 14000 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0, 0.3]) });
    return { config: { epoch: epoch(r), net }, clients, tasks: callTasks(r, { names: NAMES, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: r.pick([0.3, 0.7]), undef: 0.3, react: r.pick([0, 0.2]), invalid: 0, opts: 0.1, scale: 1 } }) };
  },
  check(w) {
    for (const op of w.ops) {
      if (renderFails(op)) continue;
      const exp = expected(op);
      if (exp.local) continue;
      for (const ex of op.exchanges) {
        if (ex.method !== exp.method) { w.fail('wrong-method', `${op.name}: ${ex.method} instead of ${exp.method}`, op); continue; }
        for (const [k, m] of payload(op, ex, exp)) w.fail(k, `${op.name}: ${m}`, op);
      }
    }
  },
};
export { API };
