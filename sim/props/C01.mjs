import { callTasks, epoch, netCfg, nodeEnv, simpleClients } from '../common.mjs';
import { isObj } from '../oracle.mjs';
import { decode, short } from '../gen.mjs';

export default {
  id: 'C01',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    return {
      config: { scribble: r.chance(0.3), epoch: epoch(r), net: netCfg(r), env: { NODE_ENV: nodeEnv(r) }, sdk: { 0: { edge: r.weighted([[false, 20], [true, 1.5], ['bare', 1]]) } } },
      clients,
      tasks: callTasks(r, { clients: clients.length, env: 0.03, gen: { react: r.pick([0, 0.2]), wild: r.pick([0.1, 0.6]), wildId: r.pick([0, 0.5]), opts: 0.3 } }),
    };
  },
  check(w) {
    if (w.stuck) w.fail('never-settles', `calls were still producing events after ${w.sim.maxSteps} steps`);
    for (const op of w.ops) {
      const failing = renderFails(op);
      if (op.syncThrow) { w.fail('sync-throw', `${op.name} threw synchronously: ${op.value?.stack ?? op.value}`, op); continue; }
      if (!op.thenable) { w.fail('not-a-promise', `${op.name} returned ${short(op.value)}`, op); continue; }
      if (op.status === 'pending') { if (!w.stuck) w.fail('never-settles', `${op.name} never settled`, op); continue; }
      if (op.status === 'rejected') {
        if (!failing) w.fail('rejected', `${op.name} rejected: ${op.value?.stack ?? op.value}`, op);
        continue;
      }
      const v = op.value;
      if (!isObj(v) || !('data' in v) || !('error' in v) || !('headers' in v)) { w.fail('bad-shape', `${op.name} resolved with ${short(v)}`, op); continue; }
      const d = v.data !== null && v.data !== undefined;
      const e = v.error !== null && v.error !== undefined;
      if (d === e) w.fail('both-or-neither', `${op.name} resolved with data=${short(v.data)} error=${short(v.error)}`, op);
      if (e && !isObj(v.error)) w.fail('error-not-object', `${op.name} error is ${short(v.error)}`, op);
    }
    for (const m of w.sim.rejections) w.fail('unhandled-rejection', `unhandled rejection: ${m}`);
  },
};
export function renderFails(op) {
  const nodes = (op.spec.reactAt?.(decode(op.enc)) ?? []).filter(Boolean);
  return nodes.some((n) => n.props.sim.fail) || (nodes.length > 0 && op.noRender);
}
