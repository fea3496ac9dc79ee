// Concurrent calls do not affect each other.
import { ALL, callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { address, compareOutcome, expected, outcome, payload, query } from '../oracle.mjs';
import { decode } from '../gen.mjs';
import { renderFails } from './C01.mjs';
import { parseAll } from './C10.mjs';

export default {
  id: 'C05',
  runs: { quick: 7200 },
  gen(r) {
    const clients = simpleClients(r, r.pick([1, 2, 3]));
    // Many calls in flight at once, often identical ones.
    const net = netCfg(r, { pFault: r.pick([0, 0.1, 0.3]) });
    return {
      config: { scribble: r.chance(0.3), epoch: epoch(r), net },
      clients,
      tasks: callTasks(r, { names: r.chance(0.1) ? ['emails.receiving.forward', 'templates.create.publish', 'templates.duplicate.publish', 'emails.send'] : ALL, clients: clients.length, burst: 0.08, tasks: r.pick([2, 5, 10, 20]), steps: r.pick([2, 5, 8]), bg: 0.8, gen: { wildId: r.pick([0, 0, 0.2]), wild: 0.2, react: r.pick([0, 0.5]), invalid: 0, opts: 0.3 } }),
    };
  },
  finish: (w) => parseAll(w),
  check(w) {
    for (const op of w.ops) {
      if (op.status === 'pending' || renderFails(op)) continue;
      if (op.spec.composite) { steps(w, op); continue; }
      const exp = expected(op);
      if (exp.local) continue;
      const ex = op.exchanges[0];
      if (!ex) { w.fail('no-request-of-its-own', `${op.name} settled without any request of its own`, op); continue; }
      for (const [k, m] of [...address(op, ex, exp), ...query(op, ex, exp), ...payload(op, ex, exp)]) w.fail(`mixed-up-request:${k}`, `${op.name}: ${m}`, op);
      if (ex.headers.authorization !== undefined && !overridden(op) && ex.headers.authorization !== `Bearer ${op.clientRec.cfg.key}`) w.fail('mixed-up-request:credentials', `${op.name} was sent with ${ex.headers.authorization}`, op);
      if (ex.aborted) w.fail('called-off', `the request of ${op.name} was called off by the SDK while it was being answered`, op);
      const last = op.exchanges[op.exchanges.length - 1];
      if (last.delivered) for (const [k, m] of compareOutcome(op, last)) w.fail(`mixed-up-result:${k}`, `${op.name}: ${m}`, op);
    }
  },
};
// A call of several steps: each step is its own, and so is the outcome.
function steps(w, op) {
  const x = op.exchanges;
  if (!x.length) return w.fail('no-request-of-its-own', `${op.name} settled without any request of its own`, op);
  for (const ex of x) if (new URL(ex.url).href.startsWith(op.clientRec.base) && ex.headers.authorization !== undefined && !overridden(op) && ex.headers.authorization !== `Bearer ${op.clientRec.cfg.key}`) w.fail('mixed-up-request:credentials', `${op.name} was sent with ${ex.headers.authorization}`, op);
  const last = x[x.length - 1];
  const d = last.delivered;
  if (!d) return;
  const failed = op.status === 'rejected' || (op.value?.error ?? null) !== null;
  const o = outcome(last);
  const chain = op.spec.composite === 'chain';
  const forward = op.spec.composite === 'forward';
  // Steps that a call's own exchanges explain.
  if (forward && x.length === 2) {
    // The download: only its own failure, or an unparsable message, may end the call here.
    if (!failed) w.fail('mixed-up-result:success', 'forward reports success although it sent nothing', op);
    else if (d.ok && !d.bodyError && !d.rejected && op.value?.error && !last.parseError) w.fail('mixed-up-result:failure', `forward reports ${op.value.error.message} although its own download succeeded`, op);
    return;
  }
  if (forward && x.length === 1 && o.kind === 'data') {
    if (!failed) return; // judged where sharing a download is: the content is C10's
    if (o.data?.raw?.download_url) w.fail('mixed-up-result:failure', `forward reports ${JSON.stringify(op.value?.error)} although it never tried its own download`, op);
    return;
  }
  if (chain && x.length === 1 && o.kind === 'data') { if (failed) w.fail('mixed-up-result:failure', `${op.name} reports a failure although its own creation succeeded and it never published`, op); return; }
  // (the creation's error is passed on; its headers need not be)
  for (const [k, m] of compareOutcome(op, last)) if (!(chain && x.length === 1 && /headers/.test(k))) w.fail(`mixed-up-result:${k}`, `${op.name}: ${m}`, op);
}
function overridden(op) {
  const o = op.spec.optsAt === undefined ? undefined : decode(op.enc)[op.spec.optsAt];
  return !!o?.headers;
}
