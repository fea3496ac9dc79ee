// Building blocks for workloads.
import { Rng } from './core.mjs';
import { Gen } from './gen.mjs';
import { ALL, API, LISTS, SINGLE } from './api.mjs';
import { D, dnum, dtime, inFocus } from './dict.mjs';

export const FAULTS_ALL = { refuse: 3, lostRequest: 2, lostResponse: 3, bodyReset: 4, truncate: 4, garble: 3, trailing: 2, gateway: 5, weirdErr: 4, apiErr: 8, throttle: 3, errBodyReset: 4, dup: 1, stall: 1, stallBody: 1, oddReject: 2, emptyOk: 2 };

export function netCfg(r, opt = {}) {
  const kinds = {};
  const src = opt.kinds ?? FAULTS_ALL;
  // Swarm testing: each run enables its own subset of the fault kinds.
  const mode = r.int(4);
  for (const [k, w] of Object.entries(src)) if (mode === 0 || r.chance(0.6)) kinds[k] = w;
  const cfg = {
    latMax: r.pick([1, 10, 100, 1000]),
    pFault: opt.pFault ?? r.pick([0, 0.1, 0.3, 0.6, 1]),
    pSlow: r.pick([0, 0.02, 0.2]),
    kinds,
  };
  if (r.chance(0.2)) {
    const ks = Object.keys(kinds);
    if (ks.length) cfg.mono = { kind: r.chance(0.5) && kinds.apiErr ? 'apiErr' : r.pick(ks), status: r.pick([400, 401, 403, 404, 408, 409, 413, 422, 429, 500, 502, 503, 504]) };
    if (opt.pFault !== 0 && r.chance(0.5)) cfg.pFault = Math.max(cfg.pFault, 0.9);
  }
  const horizon = opt.horizon ?? cfg.latMax * 10;
  if (opt.disasters !== false) {
    if (r.chance(0.25)) cfg.resets = Array.from({ length: 1 + r.int(3) }, () => Math.round(r.float() * horizon * 100) / 100);
    if (r.chance(0.25)) {
      cfg.partitions = Array.from({ length: 1 + r.int(2) }, () => {
        const from = Math.round(r.float() * horizon);
        return { from, to: from + 1 + r.int(horizon) };
      });
    }
  }
  return cfg;
}

export const KEYS = ['re_live_aaaaaaaaaaaa', 're_live_bbbbbbbbbbbb', 're_test_cccccccccccc'];
export function simpleClients(r, n = 1 + r.int(3)) {
  const one = r.chance(0.2) ? `re_one_${r.u32().toString(36)}` : null;
  return Array.from({ length: n }, (_, i) => {
    const c = { key: one ?? `re_k${i}_${r.u32().toString(36)}`, mod: r.chance(0.7) ? 0 : i };
    if (r.chance(0.3)) c.options = { baseUrl: r.pick(['https://eu.resend.example', 'http://localhost:3999/proxy/v1', 'https://api.resend.com']) };
    return c;
  });
}

// A generic multi-client workload over the given methods.
// Concentrates workloads on some methods (set by tools/mutate.mjs only).
export const focusOn = { re: null };
const HEAVY = /^(emails\.(send|metrics|receiving\.(forward|get))|batch\.send|broadcasts\.(create|update)|templates\.(create|duplicate|update)|contacts\.(create|update|get|imports\.create|topics\.update|segments\.add)|contactProperties\.|automations\.(create|update|runs\.list)|post$|suppressions\.batch)/;
export function callTasks(r, opt = {}) {
  const all = opt.names ?? ALL;
  const some = focusOn.re ? all.filter((n) => focusOn.re.test(n)) : all;
  const names = inFocus(some.length ? some : all);
  // Methods that do more than pass a request on get more of the calls.
  const heavy = names.length > 40 ? names.filter((n) => HEAVY.test(n)) : [];
  const any = (from) => (from === names && heavy.length && r.chance(0.35) ? r.pick(heavy) : r.pick(from));
  // Bursts: dozens or hundreds of calls at once on one client.
  if (opt.burst && r.chance(opt.burst)) {
    const m = r.sample(names, r.pick([1, 2, 10]));
    const g = new Gen(r, { tag: 'b', ...opt.gen });
    const n = dnum(r, 0.3, 2, 1300) ?? r.pick([12, 30, 60, 120, 300]);
    const gap = r.chance(0.7) ? 0 : 0.01;
    return [{ id: 0, start: 0, steps: Array.from({ length: n }, (_, s) => { const x = r.pick(m); return { m: x, a: API[x].gen(g), bg: true, client: 0, n: s, ...(gap ? { wait: gap } : {}) }; }) }];
  }
  const nT = opt.tasks ?? r.weighted([[1, 2], [2, 3], [4, 3], [8, 1]]);
  const clients = opt.clients ?? 1;
  const tasks = [];
  const pool = r.chance(0.5) ? Array.from({ length: 3 }, (_, i) => `shared-${i}`) : null;
  // Some runs hammer one or two methods, some spread over the whole surface.
  const focus = r.chance(0.4) ? r.sample(names, 1 + r.int(2)) : names;
  const same = r.chance(0.2) ? new Gen(new Rng(r.u32(), 'same'), { ...opt.gen, pool }) : null;
  const sameCall = same ? (() => { const m = r.pick(focus); return { m, a: API[m].gen(same) }; })() : null;
  const again = r.chance(0.35);
  for (let t = 0; t < nT; t++) {
    const g = new Gen(r, { tag: `t${t}`, pool, ...opt.gen });
    const nS = opt.steps ?? dnum(r, 0.1, 1, 60) ?? r.weighted([[1, 2], [3, 3], [6, 2], [12, 0.5]]);
    const steps = [];
    for (let s = 0; s < nS; s++) {
      const st = sameCall && r.chance(0.6) ? structuredClone(sameCall) : (() => { const m = any(focus); return { m, a: API[m].gen(g) }; })();
      if (r.chance(0.3)) st.wait = dtime(r, 0.15) ?? (r.chance(0.06) ? r.pick([6000, 15_000, 61_000, 301_000, 3_600_001, 86_400_001, 2_592_000_000]) : r.pick([0.5, 1, 10, 100, 3000]));
      if (r.chance(opt.bg ?? 0.35)) st.bg = true;
      if (again && r.chance(0.5)) st.reuse = true;
      if (r.chance(0.3)) st.alias = true;
      if (r.chance(0.05)) st.bare = true;
      st.client = r.int(clients);
      st.n = s;
      steps.push(st);
      if (opt.env && r.chance(opt.env)) steps.push({ wait: 0.123 + r.int(50), env: { NODE_ENV: nodeEnv(r) } });
      if (r.chance(0.03)) steps.push({ jump: r.pick([-86_400_000, -3_600_000, -1000, 1000, 301_000, 86_400_000]) });
    }
    tasks.push({ id: t, start: r.chance(0.5) ? 0 : Math.round(r.float() * 200) / 10, steps });
  }
  return tasks;
}
export const nodeEnv = (r) => r.weighted([['production', 4], ['development', 2], ['test', 2], [null, 1.5], ['', 0.7], [r.pick(['Production', 'PRODUCTION', 'prod', 'staging', 'preview', ' ', 'production ', 'ci', ...D.s.filter((s) => !s.includes('\0'))]), 1]]);
export const epoch = (r) => 1_760_000_000_000 + r.int(1_000_000_000) * 100 + r.int(1000);
export { Gen, Rng, API, ALL, LISTS, SINGLE };
export const settled = (w) => w.ops.filter((o) => o.status !== 'pending');
export function overlap(w) {
  // pairs of calls in flight together: the concurrency a run really had
  let n = 0;
  for (let i = 0; i < w.ops.length; i++) for (let j = i + 1; j < Math.min(w.ops.length, i + 12); j++) if (w.ops[j].tCall < (w.ops[i].tSettle ?? Infinity) && w.ops[i].tCall < (w.ops[j].tSettle ?? Infinity)) n++;
  return n;
}
