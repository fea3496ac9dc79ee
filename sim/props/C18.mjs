// Progress: a call waits for its own work only.
import { ALL, callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { expected } from '../oracle.mjs';
import { renderFails } from './C01.mjs';

export default {
  id: 'C18',
  runs: { quick: 8800 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0.2, 0.5]), kinds: { stall: 4, stallBody: 3, refuse: 2, apiErr: 3, throttle: 3, lostResponse: 2, lostRequest: 2, gateway: 2, errBodyReset: 1, oddReject: 1 } });
    net.pSlow = r.pick([0, 0.1, 0.4]);
    return {
      config: { epoch: epoch(r), net },
      clients,
      tasks: callTasks(r, { names: ALL, clients: clients.length, burst: 0.1, tasks: r.pick([1, 3, 10, 25]), bg: 0.7, gen: { wild: 0.1, react: r.pick([0, 0.3]), invalid: 0.02, opts: 0.2 } }),
    };
  },
  check(w) {
    if (w.stuck) w.fail('no-progress', 'the system kept scheduling work without settling');
    for (const op of w.ops) for (const [k, m] of ownTime(w, op)) w.fail(k, m, op);
  },
};
// Where a call spent time that was not its own.
export function ownTime(w, op) {
  const out = [];
  const fail = (k, m) => { out.push([k, m]); };
  if (op.status === 'pending') { if (!w.stuck) fail('no-progress', `${op.name} never settled although everything it waits for has ended`); return out; }
  const rend = op.renders ?? [];
  // Its own renderings, one after the other at worst: being kept from
  // rendering by someone else is a delay too.
  const rDone = rend.length ? Math.min(Math.max(...rend.map((x) => x.tDone ?? Infinity)), op.tCall + rend.reduce((n, x) => n + x.own + 0.01, 0)) : op.tCall;
  const last = Math.max(op.tCall, rDone, ...op.exchanges.map((e) => e.tDone ?? Infinity));
  if (op.tSettle > last) fail('settled-late', `${op.name} settled ${op.tSettle - last} ms after its own work ended`);
  if (op.spec.composite !== undefined || (op.spec.req && !expected(op).local && !renderFails(op))) {
    const first = op.exchanges[0];
    if (first && first.tSend > rDone) fail('sent-late', `${op.name} sent its request ${first.tSend - rDone} ms after it could`);
    for (let i = 1; i < op.exchanges.length; i++) if (op.exchanges[i].tSend > (op.exchanges[i - 1].tDone ?? Infinity)) fail('sent-late', `${op.name} waited ${op.exchanges[i].tSend - op.exchanges[i - 1].tDone} ms between steps`);
  }
  // Every answer's body matters to its call, except that of a download that failed.
  const raw = op.spec.composite === 'forward' ? op.exchanges[1] : null;
  for (const ex of op.exchanges) if ((ex.tDone ?? Infinity) > op.tSettle && !(ex === raw && ex.delivered?.ok === false)) fail('gave-up', `${op.name} settled while its own exchange ${ex.method} ${ex.url} was still being answered`);
  for (const ex of op.exchanges) if (ex.aborted) fail('gave-up', `${op.name} aborted a request that was still being answered`);
  return out;
}
