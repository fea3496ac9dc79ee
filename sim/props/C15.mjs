// React content is rendered, and it is this call's own rendering that is sent.
import { API, callTasks, epoch, netCfg, simpleClients, SINGLE } from '../common.mjs';
import { expected, isObj, payload } from '../oracle.mjs';
import { decode, short } from '../gen.mjs';

const NAMES = SINGLE.filter((n) => API[n].reactAt).concat('templates.create.publish');
export default {
  id: 'C15',
  runs: { quick: 12000 },
  gen(r) {
    const clients = simpleClients(r);
    const missing = r.chance(0.12);
    const net = netCfg(r, { pFault: r.pick([0, 0.1, 0.4]) });
    const sdk = Object.fromEntries(clients.map((c) => [c.mod ?? 0, {}]));
    if (missing) sdk[r.pick(Object.keys(sdk))] = { noRender: true };
    return { config: { epoch: epoch(r), net, sdk }, clients, tasks: callTasks(r, { names: NAMES, clients: clients.length, bg: 0.7, gen: { wild: 0.2, react: r.pick([0.5, 0.95]), invalid: 0, opts: 0.2 } }) };
  },
  check(w) {
    const html = new Map();
    for (const op of w.ops) {
      const nodes = (op.spec.reactAt?.(decode(op.enc)) ?? []).filter(Boolean).map((n) => n.props.sim);
      op.nodes = nodes;
      for (const n of nodes) html.set(n.html, op);
    }
    for (const op of w.ops) {
      const { nodes } = op;
      const noRender = !!w.plan.config.sdk?.[op.clientRec.cfg.mod ?? 0]?.noRender;
      const fails = nodes.length > 0 && (noRender || nodes.some((n) => n.fail));
      if (fails) {
        w.sim.probe(noRender ? 'renderer-missing' : 'render-failed');
        if (op.exchanges.length) w.fail('sent-without-content', `${op.name} sent ${op.exchanges.length} request(s) although its content could not be rendered`, op);
        if (op.status === 'pending') w.fail('never-settles', `${op.name} never settled after its content could not be rendered`, op);
        if (op.status === 'resolved' && !(isObj(op.value) && op.value.data === null && isObj(op.value.error))) w.fail('failure-reported-as-success', `${op.name} reported ${short(op.value)} although its content could not be rendered`, op);
        continue;
      }
      if (op.status === 'rejected') { w.fail('rejected', `${op.name} rejected although everything rendered: ${op.value?.stack ?? op.value}`, op); continue; }
      const ex = op.exchanges[0];
      if (!ex) { w.fail('never-sent', `${op.name} sent nothing`, op); continue; }
      const exp = op.spec.composite ? API[op.spec.first].req(decode(op.enc)) : expected(op);
      for (const [k, m] of payload(op, ex, exp)) w.fail(k, `${op.name}: ${m}`, op);
      for (const n of nodes) {
        w.sim.probe('rendered');
        const rec = (op.renders ?? []).find((x) => x.id === n.id);
        if (!rec) w.fail('never-rendered', `${op.name} did not render ${n.id}`, op);
        else if (rec.tDone === null || rec.tDone > ex.tSend) w.fail('sent-before-rendered', `${op.name} was sent before ${n.id} had been rendered`, op);
      }
      const own = new Set(nodes.map((n) => n.id));
      for (const x of op.renders ?? []) if (!own.has(x.id)) w.fail('foreign-render', `${op.name} rendered ${x.id}, which belongs to another call`, op);
    }
  },
};
