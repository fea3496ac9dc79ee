// Contact imports upload the file unchanged.
import { callTasks, epoch, netCfg, simpleClients } from '../common.mjs';
import { compareOutcome, expected, payload, address } from '../oracle.mjs';
import { decode } from '../gen.mjs';

export default {
  id: 'C20',
  runs: { quick: 4800 },
  gen(r) {
    const clients = simpleClients(r);
    const net = netCfg(r, { pFault: r.pick([0, 0.2, 0.6]) });
    const tasks = callTasks(r, { names: r.chance(0.6) ? ['contacts.imports.create'] : ['contacts.imports.create', 'contacts.imports.create', 'contacts.create', 'emails.send', 'contacts.imports.list', 'contacts.imports.get'], clients: clients.length, gen: { wild: r.pick([0.2, 0.7]), undef: 0.2, invalid: 0, opts: 0.3 } });
    for (const t of tasks) for (const s of t.steps) if (s.a?.[1]?.headers && s.m === 'contacts.imports.create') strip(s.a[1].headers);
    return { config: { epoch: epoch(r), net }, clients, tasks };
  },
  check(w) {
    for (const op of w.ops) {
      if (op.status === 'rejected') w.fail('rejected', `${op.name} rejected: ${op.value?.stack ?? op.value}`, op);
      if (op.invalid) w.fail('invalid-request', `${op.name} handed fetch something it cannot send`, op);
      const exp = expected(op);
      if (op.exchanges.length !== 1 && op.status === 'resolved') w.fail('request-count', `${op.name} made ${op.exchanges.length} requests`, op);
      for (const ex of op.exchanges) {
        for (const [k, m] of [...address(op, ex, exp), ...payload(op, ex, exp)]) w.fail(k, `${op.name}: ${m}`, op);
        const ct = ex.headers['content-type'] ?? '';
        if (op.spec.form && !/^multipart\/form-data; *boundary=/.test(ct)) w.fail('wrong-content-type', `multipart upload sent with content-type ${ct}`, op);
        if (!op.spec.form && ex.body.kind === 'text' && !/^application\/json/.test(ct) && !decode(op.enc)[op.spec.optsAt]?.headers) w.fail('wrong-content-type', `JSON sent with content-type ${ct}`, op);
        if (ex.delivered) for (const [k, m] of compareOutcome(op, ex)) w.fail(k, `${op.name}: ${m}`, op);
      }
    }
  },
};
function strip(h) {
  if (h.pairs) h.pairs = h.pairs.filter(([k]) => k.toLowerCase() !== 'content-type');
  else for (const k of Object.keys(h)) if (k.toLowerCase() === 'content-type') delete h[k];
}
