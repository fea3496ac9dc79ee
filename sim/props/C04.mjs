// One call, one request.
import { ALL, callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { address, expected, isLocalError, outcome } from '../oracle.mjs';
import { short } from '../gen.mjs';
import { renderFails } from './C01.mjs';

export default {
  id: 'C04',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    return {
      config: { scribble: r.chance(0.3), epoch: epoch(r), net: netCfg(r, { pFault: r.pick([0, 0.3, 0.7, 1]) }) },
      clients,
      tasks: callTasks(r, { names: r.chance(0.12) ? ['emails.receiving.forward', 'templates.create.publish', 'templates.duplicate.publish'] : ALL, clients: clients.length, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.2, react: r.pick([0, 0.2]), invalid: r.pick([0.05, 0.4]), opts: 0.3 } }),
    };
  },
  check(w) {
    for (const op of w.ops) {
      const n = op.exchanges.length;
      if (op.invalid) w.fail('invalid-request', `${op.name} handed fetch something it cannot send`, op);
      const failing = renderFails(op);
      if (op.spec.composite) { composite(w, op, failing); continue; }
      const exp = expected(op);
      if (exp.local) {
        if (n) w.fail('request-despite-invalid-arguments', `${op.name}(${short(op.enc)}) sent ${n} request(s) although a required field is missing`, op);
        else if (!isLocalError(op.value, exp.local)) w.fail('wrong-local-error', `${op.name}(${short(op.enc)}) gave ${short(op.value)} instead of ${exp.local}`, op);
        w.sim.probe('locally-rejected');
        continue;
      }
      if (failing) {
        if (n) w.fail('request-despite-render-failure', `${op.name} sent ${n} request(s) although its content could not be rendered`, op);
        continue;
      }
      if (n !== 1) w.fail(n ? 'extra-request' : 'missing-request', `${op.name} made ${n} requests: ${op.exchanges.map((e) => `${e.method} ${e.url} [${e.decision?.kind}]`).join('; ')}`, op);
      for (const [k, m] of n ? address(op, op.exchanges[0], exp) : []) w.fail('other-request', `${op.name}(${short(op.enc)}): ${k}, ${m}`, op);
    }
    for (const ex of w.net.exchanges) if (!ex.op) w.fail('stray-request', `${ex.method} ${ex.url} belongs to no call`);
  },
};
function composite(w, op, failing) {
  const x = op.exchanges;
  const max = op.spec.composite === 'chain' ? 2 : 3;
  if (failing && x.length) return w.fail('request-despite-render-failure', `${op.name} sent ${x.length} request(s)`, op);
  if (failing) return;
  if (x.length === 0) return w.fail('missing-request', `${op.name} made no request`, op);
  if (x.length > max) return w.fail('extra-request', `${op.name} made ${x.length} requests`, op);
  const ids = x.map((e) => `${e.method} ${e.url}`);
  if (new Set(ids).size !== ids.length) w.fail('extra-request', `${op.name} repeated a step: ${ids.join('; ')}`, op);
  for (let i = 0; i + 1 < x.length; i++) {
    const o = outcome(x[i]);
    const bad = i === 1 ? !(x[i].delivered?.ok && !x[i].delivered.bodyError) : o.kind !== 'data';
    if (bad) w.fail('step-after-failure', `${op.name} went on to ${ids[i + 1]} after ${ids[i]} failed (${o.kind})`, op);
    if (x[i + 1].tSend < (x[i].tDone ?? Infinity)) w.fail('step-before-end', `${op.name} sent ${ids[i + 1]} before ${ids[i]} had finished`, op);
  }
  if (op.spec.composite === 'chain' && outcome(x[0]).kind === 'data' && x.length !== 2) w.fail('missing-request', `${op.name} never published`, op);
}
