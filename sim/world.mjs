// Runs one plan: SDK copies, clients, tasks, the simulated network and servers.
import { als, hashStr, Rng, Sim, setEnv, StepLimit, withSim } from './core.mjs';
import { Net } from './net.mjs';
import { EchoServer } from './server.mjs';
import { API, invoke } from './api.mjs';
import { canon, decode } from './gen.mjs';
import { loadSdk } from './sdk.mjs';
import { setDict } from './dict.mjs';

export class World {
  constructor(plan, prop) {
    this.plan = plan;
    this.prop = prop;
    this.sim = new Sim(plan);
    this.ops = [];
    this.violations = [];
    this.clients = [];
    this.sdks = new Map();
    this.events = []; // application-level history
    this.lastOp = new Map(); // latest call of each method
    this.opseq = 0;
    this.eventSeq = 0;
  }
  fail(kind, msg, op) {
    if (this.violations.length < 50) this.violations.push({ kind, msg, op: op?.id ?? null, at: this.sim.now - this.sim.start });
  }
  sdk(id, opts) {
    if (!this.sdks.has(id)) this.sdks.set(id, loadSdk(opts ?? this.plan.config.sdk?.[id] ?? {}));
    return this.sdks.get(id);
  }
  // Client records: {cfg, client, ctorError, base, key, ua}
  makeClient(cfg) {
    const mod = this.sdk(cfg.mod ?? 0);
    const rec = { cfg, client: null, ctorError: null };
    const o = cfg.options === undefined ? undefined : decode(cfg.options);
    try {
      rec.client = cfg.options === undefined && cfg.key === undefined ? new mod.Resend() : cfg.options === undefined ? new mod.Resend(decode(cfg.key)) : new mod.Resend(decode(cfg.key), o);
    } catch (e) {
      rec.ctorError = e;
    }
    rec.optionsObj = o;
    rec.base = cfg.base ?? cfg.options?.baseUrl ?? 'https://api.resend.com';
    return rec;
  }
  sleep(ms) {
    return new Promise((r) => this.sim.at(ms, r, 'sleep'));
  }
  // Starts one call; resolves when it has settled (never rejects).
  call(info) {
    const { plan } = this;
    const spec = API[info.m];
    const op = {
      id: info.id ?? `o${this.opseq}`,
      task: info.task ?? '',
      proc: info.proc ?? null,
      name: info.m,
      spec,
      clientRec: info.clientRec,
      enc: info.a,
      step: info.step ?? null,
      exchanges: [],
      status: 'pending',
      tCall: this.sim.now,
      tSettle: null,
      netCfg: info.netCfg ?? null,
      netKey: info.netKey ?? null,
      callSeq: ++this.eventSeq,
      dead: false,
      args: null,
    };
    this.opseq++;
    this.ops.push(op);
    info.proc?.ops.push(op);
    op.args = info.args ?? decode(info.a);
    this.lastOp.set(op.name, op);
    this.sim.note(`call ${op.id} ${op.name}`, `C${op.task}`);
    let p;
    const onSettle = (status) => (v) => {
      if (op.status !== 'pending') { op.twice = true; return; }
      op.status = status;
      // Some callers do as they like with what they are given.
      op.value = plan.config.scribble ? snapshot(v) : v;
      if (plan.config.scribble) scribble(v);
      op.tSettle = this.sim.now;
      op.retSeq = ++this.eventSeq;
      this.sim.note(`settle ${op.id} ${status} ${status === 'resolved' ? (v?.error ? `error:${v.error?.name}` : 'data') : ''}`, `D${op.task}`);
      this.prop.onSettle?.(this, op);
    };
    try {
      p = als.run(op, () => (info.fn ? info.fn(op) : invoke(info.clientRec.client, info.m, op.args)));
    } catch (e) {
      op.syncThrow = true;
      onSettle('rejected')(e);
      return Promise.resolve(op);
    }
    info.afterCall?.(op);
    op.thenable = p !== null && typeof p === 'object' && typeof p.then === 'function';
    if (!op.thenable) { onSettle('resolved')(p); return Promise.resolve(op); }
    op.promise = p;
    return new Promise((res) => {
      p.then((v) => { onSettle('resolved')(v); res(op); }, (e) => { onSettle('rejected')(e); res(op); });
    });
  }
  // Callers pass the objects they passed before, with the same contents or, once
  // that call is over, with new ones; and one object at several places of a list.
  argsOf(s) {
    const args = decode(s.a);
    if (s.alias) shareEqual(s.a, args);
    if (s.bare) for (const a of args) bare(a);
    const last = s.reuse ? this.lastOp.get(s.m) : null;
    if (!last?.args) return args;
    if (canon(last.enc) === canon(s.a)) return last.args;
    if (!this.free(last)) return args;
    this.sim.count('argumentsReused');
    const used = new Set();
    return args.map((x, i) => refill(last.args[i], x, used));
  }
  free(last) {
    return !this.ops.some((o) => o.status === 'pending' && o.name === last.name && o.args?.some((x) => x !== null && typeof x === 'object' && last.args.includes(x)));
  }
  async runTask(t) {
    const proc = { id: t.id, ops: [], dead: false };
    for (let i = 0; i < t.steps.length; i++) {
      const s = t.steps[i];
      if (s.wait) await this.sleep(s.wait);
      if (proc.dead) return;
      if (s.env) { setEnv({ ...this.env, ...s.env }); this.env = { ...this.env, ...s.env }; this.envLog.push({ at: this.sim.now, env: this.env }); continue; }
      if (s.jump) { this.sim.skew += s.jump; this.sim.count('clockJump'); continue; }
      if (s.m) {
        const rec = this.clients[s.client ?? t.client ?? 0];
        if (!rec?.client) continue;
        const p = this.call({ m: s.m, a: s.a, clientRec: rec, task: t.id, id: `t${t.id}s${s.n ?? i}`, step: s, proc, netCfg: s.net, afterCall: this.prop.afterCall ? (op) => this.prop.afterCall(this, op) : undefined, args: this.prop.argsFor ? this.prop.argsFor(this, s) : this.argsOf(s) });
        if (!s.bg) await p;
        continue;
      }
      const r = this.prop.step?.(this, t, s, i, proc);
      if (r && !s.bg) await r;
    }
  }
  async run() {
    const { plan, sim } = this;
    const cfg = plan.config;
    return withSim(sim, async () => {
      this.env = { NODE_ENV: 'test', ...(cfg.env ?? {}) };
      setEnv(this.env);
      this.envLog = [{ at: sim.start, env: this.env }];
      this.server = this.prop.server ? this.prop.server(this) : new EchoServer(sim, { base: (ex) => ex.op?.clientRec?.base ?? 'https://api.resend.com' });
      this.net = new Net(sim, cfg.net ?? {}, this.server);
      this.prop.init?.(this);
      for (const c of plan.clients ?? []) this.clients.push(this.makeClient(c));
      this.prop.start?.(this);
      this.running = plan.tasks.length;
      for (const t of plan.tasks) sim.at(t.start ?? 0, () => { this.runTask(t).catch((e) => { this.harnessError = e; }).finally(() => { this.running--; }); }, 'task');
      try {
        await sim.run();
        // Bodies that were never consumed, unhandled rejections: one more turn.
        await sim.drain();
        await sim.drain();
      } catch (e) {
        if (e instanceof StepLimit) this.stuck = true;
        else throw e;
      }
      if (this.harnessError) throw this.harnessError;
      await this.prop.finish?.(this);
      this.prop.check(this);
      return this;
    });
  }
}

// The old object with the new contents.
export function refill(old, neu, used = new Set()) {
  if (used.has(old) || !isPlain(old) || !isPlain(neu) || Array.isArray(old) !== Array.isArray(neu) || Object.isFrozen(old) || old.type === 'SimComponent' || neu.type === 'SimComponent') return neu;
  used.add(old);
  const was = Array.isArray(old) ? old.slice() : { ...old };
  if (Array.isArray(old)) old.length = 0;
  else for (const k of Object.keys(old)) delete old[k];
  for (const k of Object.keys(neu)) Object.defineProperty(old, k, { value: refill(Object.hasOwn(was, k) ? was[k] : null, neu[k], used), enumerable: true, configurable: true, writable: true });
  return old;
}
function shareEqual(enc, dec) {
  if (enc === null || typeof enc !== 'object' || typeof enc.$ === 'string' || dec === null || typeof dec !== 'object') return;
  const seen = new Map();
  for (const k of Object.keys(enc)) {
    shareEqual(enc[k], dec[k]);
    if (!Array.isArray(enc) || dec[k] === null || typeof dec[k] !== 'object') continue;
    const c = canon(enc[k]);
    if (seen.has(c)) dec[k] = seen.get(c);
    else seen.set(c, dec[k]);
  }
}
const isPlain = (v) => v !== null && typeof v === 'object' && (Array.isArray(v) || [Object.prototype, null].includes(Object.getPrototypeOf(v)));
// Objects without a prototype, as some parsers make them.
function bare(v) {
  if (!isPlain(v) || v.type === 'SimComponent') return;
  for (const k of Object.keys(v)) bare(v[k]);
  if (!Array.isArray(v)) Object.setPrototypeOf(v, null);
}
function snapshot(v) {
  if (!isPlain(v)) return v;
  if (Array.isArray(v)) return v.map(snapshot);
  const o = {};
  for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: snapshot(v[k]), enumerable: true, configurable: true, writable: true });
  return o;
}
function scribble(v, depth = 0) {
  if (!isPlain(v) || depth > 5) return;
  for (const k of Object.keys(v)) {
    scribble(v[k], depth + 1);
    try { Object.defineProperty(v, k, { value: 'scribbled', enumerable: true, configurable: true, writable: true }); } catch {}
  }
  try { if (Array.isArray(v)) v.length = 0; else v.scribbled = true; } catch {}
}

export async function execute(plan, prop) {
  setDict(plan.dict);
  const w = new World(plan, prop);
  await w.run();
  return w;
}

export function digestOf(w) {
  let h = w.sim.digest();
  const tail = JSON.stringify(w.ops.map((o) => [o.id, o.status, o.status === 'resolved' ? o.value : String(o.value?.message ?? o.value)]));
  h += hashStr(tail ?? '').toString(16);
  return h;
}
export { Rng };
