// Command line:
//   node sim/run.mjs <property> [--runs N] [--jobs N] [--seed S] [--tier quick|thorough]
//   node sim/run.mjs --replay <file>
//   node sim/run.mjs <property> --one <seed> [--verbose]
import { fork } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { install, real } from './core.mjs';
import { build, REPO, useBundle } from './sdk.mjs';
import { digestOf, execute } from './world.mjs';
import { overlap } from './common.mjs';
import { makePlan } from './plan.mjs';
import { makePools, usePools } from './dict.mjs';
import { minimise } from './shrink.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const ROOT = path.dirname(HERE);
const argv = process.argv.slice(2);
const flag = (n, d) => {
  const i = argv.indexOf(`--${n}`);
  return i < 0 ? d : argv[i + 1];
};
const now = () => real.perfNow();

export async function loadProp(id) {
  return (await import(`./props/${id}.mjs`)).default;
}
const firstViolation = (w) => w.violations[0] ?? null;

function interleaving(w) {
  const s = w.sim.shape.join('');
  let a = 0x811c9dc5;
  let b = 0x9747b28c;
  for (let i = 0; i < s.length; i++) {
    a = Math.imul(a ^ s.charCodeAt(i), 0x01000193);
    b = Math.imul(b ^ s.charCodeAt(i), 0x5bd1e995);
  }
  return (a >>> 0) * 2097152 + ((b >>> 0) & 0x1fffff);
}

// ------------------------------------------------------------------ worker
async function worker(cfg) {
  install();
  useBundle(cfg.bundle);
  usePools(JSON.parse(fs.readFileSync(cfg.dict, 'utf8')));
  const prop = await loadProp(cfg.property);
  const known = loadKnown(cfg.property);
  const st = { runs: 0, nontrivial: 0, simMs: 0, calls: 0, exchanges: 0, overlaps: 0, faults: {}, probes: {}, methods: {}, outcomes: {}, shapes: new Set(), digests: 0, samples: [], violation: null, known: {}, redone: 0, steps: 0 };
  const t0 = now();
  const beat = cfg.beat ? fs.openSync(cfg.beat, 'w') : null;
  for (let k = 0; ; k++) {
    const i = cfg.offset + k * cfg.stride;
    if (i >= cfg.runs || now() - t0 > cfg.budgetMs) break;
    const seed = cfg.base + i;
    if (beat !== null) fs.writeSync(beat, String(seed).padEnd(24), 0);
    const plan = makePlan(prop, seed);
    let w;
    try {
      w = await execute(plan, prop);
    } catch (e) {
      st.error = `seed ${seed}: ${e?.stack ?? e}`;
      break;
    }
    st.runs++;
    st.steps += w.sim.steps;
    st.simMs += w.sim.now - w.sim.start;
    st.calls += w.ops.length;
    st.exchanges += w.net.exchanges.length;
    const ov = overlap(w);
    st.overlaps += ov;
    const nf = Object.values(w.sim.faults).reduce((a, b) => a + b, 0);
    for (const [f, n] of Object.entries(w.sim.faults)) st.faults[f] = (st.faults[f] ?? 0) + n;
    for (const [f, n] of Object.entries(w.sim.probes)) st.probes[f] = (st.probes[f] ?? 0) + n;
    for (const o of w.ops) st.methods[o.name] = (st.methods[o.name] ?? 0) + 1;
    const shape = interleaving(w);
    const isNew = !st.shapes.has(shape);
    st.shapes.add(shape);
    if (isNew && (ov > 0 || nf > 0 || w.nontrivial)) st.nontrivial++;
    const dg = digestOf(w);
    st.digests = (st.digests ^ parseInt(dg.slice(0, 8), 16)) >>> 0;
    if (st.samples.length < 2 && w.ops.length > 1 && w.sim.log.length < 60 && ov > 0) st.samples.push({ seed, digest: dg, trace: w.sim.log.slice(0, 40) });
    // Determinism is itself checked: some seeds are executed twice.
    if (k % cfg.redo === 0 && !w.violations.length) {
      const w2 = await execute(makePlan(prop, seed), prop);
      st.redone++;
      if (digestOf(w2) !== dg) { st.error = `seed ${seed} is not deterministic`; st.a = w.sim.log; st.b = w2.sim.log; break; }
    }
    if (w.violations.length) {
      const fresh = w.violations.find((v) => !matchKnown(known, v));
      for (const v of w.violations) { const kf = matchKnown(known, v); if (kf) st.known[kf.id] = (st.known[kf.id] ?? 0) + 1; }
      if (fresh) { st.violation = { seed, kind: fresh.kind, msg: fresh.msg, plan }; break; }
    }
  }
  st.ms = now() - t0;
  st.shapes = [...st.shapes];
  process.send(st, () => process.exit(0));
}

const NEVER_RETURNS = 'never-returns';
const NEVER = new Set(['C01', 'C18']);

// ------------------------------------------------------------------ known findings
function loadKnown(id) {
  const f = path.join(ROOT, 'known-findings.json');
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter((k) => k.property === id && k.status === 'known');
}
function matchKnown(known, v) {
  return known.find((k) => k.kind === v.kind && (!k.match || new RegExp(k.match).test(v.msg)));
}

// ------------------------------------------------------------------ parent
function runWorkers(cfg, jobs) {
  return Promise.all(Array.from({ length: jobs }, (_, j) => new Promise((res) => {
    const beat = `${cfg.dict}.beat${j}`;
    const c = fork(fileURLToPath(import.meta.url), ['--worker', JSON.stringify({ ...cfg, offset: j, stride: jobs, beat })], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=1500', '--no-warnings'] });
    let got = null;
    const timer = real.setTimeout(() => c.kill('SIGKILL'), cfg.budgetMs + 120_000);
    // No run takes a minute, unless a call never gives control back.
    let at = null;
    let since = now();
    const watch = real.setInterval(() => {
      const s = lastBeat(beat);
      if (s !== at) { at = s; since = now(); } else if (s !== null && now() - since > cfg.hangMs) c.kill('SIGKILL');
    }, 2000);
    c.on('message', (m) => { got = m; });
    c.on('exit', (code) => { real.clearTimeout(timer); real.clearInterval(watch); res(got ?? { error: `worker ${j} died with ${code}`, suspect: lastBeat(beat) }); });
  })));
}
const lastBeat = (f) => {
  try { return Number(fs.readFileSync(f, 'utf8')) || null; } catch { return null; }
};
// Does this seed end the process, or keep it busy for ever, on its own?
async function neverReturns(cfg, seed) {
  const [p] = await runWorkers({ ...cfg, base: seed, runs: 1 }, 1);
  return !!p.suspect;
}
const add = (a, b) => { for (const [k, v] of Object.entries(b ?? {})) a[k] = (a[k] ?? 0) + v; return a; };

async function main(id) {
  const prop = await loadProp(id);
  const tier = flag('tier', process.env.VERIF_TIER ?? 'quick');
  const seed = Number(flag('seed', process.env.VERIF_SEED ?? '1')) || 0;
  const jobs = Number(flag('jobs', String(Math.max(1, Math.min(8, os.cpus().length)))));
  const t0 = now();
  const bdir = path.join(ROOT, '.build', `${id}-${process.pid}`);
  const bundle = path.join(bdir, 'sdk.cjs');
  await build(bundle);
  const dict = path.join(bdir, 'dict.json');
  const pools = makePools(REPO);
  fs.writeFileSync(dict, JSON.stringify(pools));
  const quickRuns = prop.runs.quick;
  const runs = Number(flag('runs', tier === 'thorough' ? 1e9 : quickRuns));
  const budgetMs = Number(flag('budget', tier === 'thorough' ? (prop.thoroughMs ?? 240_000) : 150_000));
  const cfg = { property: id, bundle, dict, runs, base: (seed & 0xfffff) * 10_000_000, budgetMs, redo: 50, hangMs: Number(flag('hang', '60000')) };
  const parts = await runWorkers(cfg, jobs);
  const sum = { runs: 0, nontrivial: 0, simMs: 0, calls: 0, exchanges: 0, overlaps: 0, redone: 0, steps: 0 };
  const faults = {};
  const probes = {};
  const methods = {};
  const known = {};
  const shapes = new Set();
  const samples = [];
  let err = null;
  let best = null;
  for (const p of parts) {
    if (p.error) err = p;
    for (const k of Object.keys(sum)) sum[k] += p[k] ?? 0;
    add(faults, p.faults); add(probes, p.probes); add(methods, p.methods); add(known, p.known);
    for (const s of p.shapes ?? []) shapes.add(s);
    samples.push(...(p.samples ?? []));
    if (p.violation && (!best || p.violation.seed < best.seed)) best = p.violation;
  }
  const lost = parts.find((p) => p.suspect);
  // What the others found counts; a run that never comes back is a finding
  // where progress is the property.
  if (!best && lost && NEVER.has(id) && (await neverReturns(cfg, lost.suspect))) {
    usePools(pools);
    best = { seed: lost.suspect, kind: NEVER_RETURNS, msg: 'a call never gives control back: the process stays busy (or dies) and nothing in it settles any more', plan: makePlan(prop, lost.suspect) };
  }
  let replay = null;
  if (best) replay = await report(prop, best, bundle);
  const wall = (now() - t0) / 1000;
  const evidence = {
    property: id, tier, seed, level: 'exploration',
    coverage: {
      evaluations: sum.runs,
      distinct_nontrivial: Math.min(sum.nontrivial, shapes.size),
      rule: `One case is one simulated execution of the real SDK, generated and scheduled from one seed (seeds ${cfg.base}..${cfg.base + sum.runs - 1}). Two cases are distinct when the order of their events (call, request sent, request arrived, response head, body end, abort, rejection, render, timer, console line, settlement; each labelled with the task it belongs to) differs. A case is non-trivial when at least one fault was injected, or two calls overlapped in simulated time${prop.nontrivialRule ? `, or ${prop.nontrivialRule}` : ''}.`,
      samples: samples.slice(0, 3).concat(samples.length ? [] : [{ note: 'no short overlapping run in this batch' }]),
      distinct_interleavings: shapes.size,
      seeds: sum.runs,
      runs_per_hour: Math.round((sum.runs / Math.max(wall, 0.001)) * 3600),
      simulated_seconds: Math.round(sum.simMs / 1000),
      scheduler_events: sum.steps,
      calls: sum.calls,
      exchanges: sum.exchanges,
      overlapping_call_pairs: sum.overlaps,
      faults_injected: faults,
      probes,
      methods_exercised: Object.keys(methods).length,
      calls_per_method: methods,
      runs_repeated_for_determinism: sum.redone,
      dictionary: { literals: Object.values(pools.base).flat().length, not_in_snapshot: Object.values(pools.novel).flat().length, parts_of_the_api_favoured: pools.focus },
      real_components: ['all of /repo/src (bundled unmodified from the working tree)', 'postal-mime', 'standardwebhooks', "node's Request/Response/Headers/FormData/URL/streams"],
      stub_components: ['network and fetch', 'Resend API server and download hosts', 'clock, timers, Math.random, crypto randomness', '@react-email/render', 'process environment', 'console sink', 'Blob I/O'],
    },
    assumptions: prop.assumptions ?? ['success bodies have the shape the API documents', 'strings are well-formed Unicode', 'arguments are serialisable'],
    wall_s: Math.round(wall * 100) / 100,
    violations: best ? 1 : 0,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`);
  fs.rmSync(bdir, { recursive: true, force: true });
  for (const k of loadKnown(id)) console.log(`KNOWN-FINDING: property=${id} ${k.what} (seen ${known[k.id] ?? 0} times in this run)`);
  console.log(`${id}: ${sum.runs} runs, ${sum.calls} calls, ${sum.exchanges} exchanges, ${shapes.size} interleavings, ${Object.values(faults).reduce((a, b) => a + b, 0)} faults, ${Math.round(sum.simMs / 1000)} simulated s, ${wall.toFixed(1)} s`);
  if (best) {
    console.log(`  ${best.kind}: ${best.msg}`);
    console.log(`VIOLATION property=${id} replay=${replay}`);
    process.exit(1);
  }
  if (err) {
    console.error(`harness error: ${err.error}`);
    if (err.a) for (let i = 0; i < Math.max(err.a.length, err.b.length); i++) if (err.a[i] !== err.b[i]) { console.error(err.a[i], '\n', err.b[i]); break; }
    process.exit(2);
  }
}

// Shrinks the failing plan, writes it, and proves in a fresh process that the
// file reproduces the very same execution.
async function report(prop, v, bundle) {
  const dir = path.join(ROOT, 'replays');
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${prop.id}-${v.seed}.json`);
  install();
  useBundle(bundle);
  let plan = v.plan;
  if (v.kind === NEVER_RETURNS) {
    // Nothing that hangs can be executed here; the seed decides everything.
    fs.writeFileSync(file, `${JSON.stringify({ ...plan, violation: { kind: v.kind, msg: v.msg } }, null, 1)}\n`);
    return file;
  }
  try {
    plan = await minimise(plan, prop, v.kind);
  } catch (e) {
    console.error(`minimiser gave up: ${e?.stack ?? e}`);
  }
  const w = await execute(plan, prop);
  const got = w.violations.find((x) => x.kind === v.kind) ?? firstViolation(w);
  const out = { ...plan, violation: got, digest: digestOf(w), log: w.sim.log.slice(0, 400) };
  fs.writeFileSync(file, `${JSON.stringify(out, null, 1)}\n`);
  const rc = await new Promise((res) => fork(fileURLToPath(import.meta.url), ['--replay', file, '--bundle', bundle, '--quiet'], { stdio: 'inherit', execArgv: ['--no-warnings'] }).on('exit', res));
  console.log(rc === 1 ? '  replay file reproduces the same execution in a fresh process' : `  warning: replay ended with ${rc}`);
  return file;
}

async function replay(file) {
  install();
  const plan = JSON.parse(fs.readFileSync(file, 'utf8'));
  let bundle = flag('bundle', null);
  const own = !bundle;
  if (own) { bundle = path.join(ROOT, '.build', `replay-${process.pid}`, 'sdk.cjs'); await build(bundle); }
  useBundle(bundle);
  if (own) fs.rmSync(path.dirname(bundle), { recursive: true, force: true });
  const prop = await loadProp(plan.property);
  const { violation, digest, log, ...p } = plan;
  if (violation?.kind === NEVER_RETURNS && !argv.includes('--inner')) {
    const back = await new Promise((res) => {
      const c = fork(fileURLToPath(import.meta.url), ['--replay', file, '--inner', '--quiet'], { stdio: 'inherit', execArgv: ['--max-old-space-size=1500', '--no-warnings'] });
      const t = real.setTimeout(() => c.kill('SIGKILL'), 60_000);
      c.on('exit', (code) => { real.clearTimeout(t); res(code === 0); });
    });
    console.log(back ? 'the execution came to its end' : `${violation.kind}: ${violation.msg}\nVIOLATION property=${plan.property} replay=${file}`);
    process.exit(back ? 0 : 1);
  }
  p.frozen = violation?.kind !== NEVER_RETURNS;
  const w = await execute(p, prop);
  const same = digestOf(w) === digest;
  const quiet = argv.includes('--quiet');
  if (!quiet) {
    for (const l of w.sim.log) console.log(`  ${l}`);
    for (const x of w.violations) console.log(`${x.kind}: ${x.msg}`);
    console.log(same ? 'execution identical to the recorded one' : `execution differs from the recorded one (${digestOf(w)} vs ${digest})`);
  }
  const again = w.violations.find((x) => x.kind === violation?.kind);
  if (again) {
    if (!quiet) console.log(`VIOLATION property=${plan.property} replay=${file}`);
    process.exit(same || !quiet ? 1 : 3);
  }
  process.exit(0);
}

async function one(id, seed) {
  install();
  const bundle = path.join(ROOT, '.build', `one-${process.pid}`, 'sdk.cjs');
  await build(bundle);
  useBundle(bundle);
  fs.rmSync(path.dirname(bundle), { recursive: true, force: true });
  usePools(makePools(REPO));
  const prop = await loadProp(id);
  const plan = makePlan(prop, seed);
  const w = await execute(plan, prop);
  if (argv.includes('--verbose')) { console.log(JSON.stringify(plan, null, 1)); for (const l of w.sim.log) console.log(l); for (const o of w.ops) console.log(o.id, o.name, o.status, JSON.stringify(o.value)?.slice(0, 300)); }
  console.log('digest', digestOf(w));
  for (const x of w.violations) console.log(x.kind, x.msg, x.op);
}

if (argv[0] === '--worker') await worker(JSON.parse(argv[1]));
else if (argv.includes('--replay')) await replay(flag('replay'));
else if (argv.includes('--one')) await one(argv[0], Number(flag('one')));
else await main(argv[0]);
