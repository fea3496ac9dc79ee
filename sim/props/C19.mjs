// Error logging.
import { ALL, callTasks, epoch, netCfg, nodeEnv, simpleClients } from '../common.mjs';
import { expected, outcome } from '../oracle.mjs';
import { canon, short } from '../gen.mjs';
import { renderFails } from './C01.mjs';

export default {
  id: 'C19',
  runs: { quick: 10000 },
  gen(r) {
    const clients = simpleClients(r);
    return {
      config: { epoch: epoch(r), net: netCfg(r, { pFault: r.pick([0, 0.4, 0.9]) }), env: { NODE_ENV: nodeEnv(r) }, sdk: { 1: { edge: r.pick([false, false, false, true, 'bare']) } } },
      clients,
      tasks: callTasks(r, { names: ALL, clients: clients.length, env: 0.2, gen: { wild: 0.1, react: 0.05, invalid: 0.1, opts: 0.2 } }),
    };
  },
  check(w) {
    const prod = (t) => {
      let v = w.envLog[0].env.NODE_ENV;
      let edge = false;
      for (const e of w.envLog) { if (e.at < t) v = e.env.NODE_ENV; else if (e.at === t) edge = true; }
      return { prod: v === 'production', ambiguous: edge };
    };
    const logs = w.sim.logs;
    for (const op of w.ops) {
      if (op.status === 'pending') continue;
      const mine = logs.filter((l) => l.op === op.id);
      const edgeRuntime = w.plan.config.sdk?.[op.clientRec.cfg.mod ?? 0]?.edge;
      let want = 0;
      let sure = true;
      const forward = op.spec.composite === 'forward';
      for (const [i, ex] of op.exchanges.entries()) {
        // The download is no API request: whether its failure is logged is open.
        if (forward && i === 1) { if (op.exchanges.length === 2) sure = false; continue; }
        if (outcome(ex).kind === 'data') continue;
        const p = prod(ex.tDone ?? w.sim.now);
        if (p.ambiguous) sure = false;
        if (!p.prod && !edgeRuntime) want++;
      }
      if (renderFails(op) || (op.spec.req && expected(op).local)) want = 0;
      if (!sure) continue;
      if (mine.length !== want) {
        w.fail(mine.length > want ? (want ? 'logged-twice' : 'unexpected-log') : 'missing-log', `${op.name} (${op.exchanges.map((e) => outcome(e).kind).join(',')}) produced ${mine.length} log lines instead of ${want}: ${short(mine.map((m) => m.args))}`, op);
        continue;
      }
      for (const l of mine) {
        if (l.level !== 'error') w.fail('wrong-level', `logged with console.${l.level}`, op);
        const text = short(l.args, 1e6);
        const e = op.value?.error;
        if (e && !text.includes(canonPart(l.args, e))) w.fail('log-without-error', `the log line ${short(l.args)} does not show the error ${short(e)}`, op);
        w.sim.probe('log-line');
      }
    }
    for (const l of logs) {
      if (l.op === null) w.fail('stray-log', `log line outside any call: ${short(l.args)}`);
      const t = short(l.args, 1e6) + l.text;
      for (const c of w.clients) if (t.includes(c.cfg.key)) w.fail('credential-in-log', `the API key is in a log line: ${short(l.args)}`);
    }
  },
};
// '' when some argument carries the error object, else a string no log contains.
function canonPart(args, e) {
  const want = canon(JSON.parse(JSON.stringify(e)));
  const has = (v, d) => {
    if (v === null || typeof v !== 'object' || d > 3) return false;
    try { if (canon(JSON.parse(JSON.stringify(v))) === want) return true; } catch { return false; }
    return Object.values(v).some((x) => has(x, d + 1));
  };
  if (args.some((a) => has(a, 0) || (typeof a === 'string' && e.message && a.includes(e.message)))) return '';
  return '\u0001never';
}
