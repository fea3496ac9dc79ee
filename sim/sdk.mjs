// Builds the SDK under test from /repo's working tree and loads fresh copies of
// it: one copy stands for one operating-system process running the SDK.
import fs from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import vm from 'node:vm';
import { als, cur, real } from './core.mjs';

export const REPO = process.env.VERIF_REPO ?? '/repo';
const require = createRequire(import.meta.url);

function loadEsbuild() {
  const tries = ['/opt/veriftools/node/node_modules/esbuild', path.join(REPO, 'node_modules/esbuild')];
  const pnpm = path.join(REPO, 'node_modules/.pnpm');
  if (fs.existsSync(pnpm)) for (const d of fs.readdirSync(pnpm)) if (d.startsWith('esbuild@')) tries.push(path.join(pnpm, d, 'node_modules/esbuild'));
  for (const t of tries) {
    try {
      return require(t);
    } catch {}
  }
  throw new Error('esbuild not found');
}

export async function build(outfile) {
  const esbuild = loadEsbuild();
  fs.mkdirSync(path.dirname(outfile), { recursive: true });
  await esbuild.build({
    entryPoints: [path.join(REPO, 'src/index.ts')],
    bundle: true,
    format: 'cjs',
    platform: 'node',
    target: 'node20',
    external: ['@react-email/render', '@react-email/components', 'react', 'react-dom'],
    supported: { 'dynamic-import': false },
    outfile,
    logLevel: 'error',
    tsconfigRaw: '{}',
    absWorkingDir: REPO,
  });
}

let script = null;
export function useBundle(file) {
  const code = fs.readFileSync(file, 'utf8');
  script = new vm.Script(`(function (exports, require, module, process) {${code}\n})`, { filename: file });
}

const simTimers = {
  setTimeout: (...a) => globalThis.setTimeout(...a),
  setInterval: (...a) => globalThis.setInterval(...a),
  setImmediate: (...a) => globalThis.setImmediate(...a),
  clearTimeout: (...a) => globalThis.clearTimeout(...a),
  clearInterval: (...a) => globalThis.clearInterval(...a),
  clearImmediate: (...a) => globalThis.clearImmediate(...a),
};
const simTimersPromises = {
  setTimeout: (ms, v) => new Promise((r) => globalThis.setTimeout(r, ms, v)),
  setImmediate: (v) => new Promise((r) => globalThis.setImmediate(r, v)),
  scheduler: { wait: (ms) => new Promise((r) => globalThis.setTimeout(r, ms)), yield: () => new Promise((r) => globalThis.setImmediate(r)) },
};

// Node's own crypto, with the randomness of the simulation.
let cryptoCopy = null;
function simCrypto() {
  if (cryptoCopy) return cryptoCopy;
  const own = require('crypto');
  cryptoCopy = {};
  for (const [k, d] of Object.entries(Object.getOwnPropertyDescriptors(own))) {
    Object.defineProperty(cryptoCopy, k, 'value' in d
      ? { value: d.value, enumerable: d.enumerable, configurable: true, writable: true }
      : { get: () => own[k], enumerable: d.enumerable, configurable: true });
  }
  const bytes = (n) => Buffer.from(globalThis.crypto.getRandomValues(new Uint8Array(n)));
  const set = (k, value) => Object.defineProperty(cryptoCopy, k, { value, enumerable: true, configurable: true, writable: true });
  set('randomUUID', () => globalThis.crypto.randomUUID());
  set('getRandomValues', (a) => globalThis.crypto.getRandomValues(a));
  set('randomBytes', (n, cb) => (cb ? queueMicrotask(() => cb(null, bytes(n))) : bytes(n)));
  set('randomInt', (a, b, cb) => { const [lo, hi] = b === undefined || typeof b === 'function' ? [0, a] : [a, b]; const v = lo + Math.floor(Math.random() * (hi - lo)); const f = typeof b === 'function' ? b : cb; return f ? queueMicrotask(() => f(null, v)) : v; });
  set('randomFillSync', (a) => globalThis.crypto.getRandomValues(a));
  return cryptoCopy;
}

// The optional React renderer, as a stub the simulator schedules and breaks.
export function renderNode(node, sim) {
  const op = als.getStore();
  const d = node?.props?.sim;
  if (!d) return Promise.reject(new Error('not a simulated component'));
  const rec = { id: d.id, op: op?.id, tStart: sim.now, tDone: null, own: d.fail === 'throw' ? 0 : Math.max(0, d.delay ?? 0) };
  (op ? (op.renders ??= []) : []).push(rec);
  sim.note(`render ${op?.id ?? '-'} ${d.id}`, `r${op?.task ?? ''}`);
  if (d.fail === 'throw') { rec.tDone = sim.now; sim.count('renderFailure'); throw new Error(`render boom ${d.id}`); }
  return new Promise((res, rej) => {
    sim.at(d.delay ?? 0, () => {
      rec.tDone = sim.now;
      sim.note(`rendered ${op?.id ?? '-'} ${d.id}`, `R${op?.task ?? ''}`);
      if (d.fail) {
        sim.count('renderFailure');
        rej(d.fail === 'string' ? `render boom ${d.id}` : new Error(`render boom ${d.id}`));
      } else res(d.html);
    }, 'render');
  });
}

// One fresh copy of the SDK. opts.noRender: the renderer is not installed;
// opts.edge: a runtime without `process` (workers, edge functions), or with one
// that has no environment ('bare').
export function loadSdk(opts = {}) {
  const module = { exports: {} };
  const req = (name) => {
    const n = name.replace(/^node:/, '');
    if (name === '@react-email/render') {
      if (opts.noRender) {
        cur()?.count('renderMissing');
        throw Object.assign(new Error(`Cannot find module '${name}'`), { code: 'MODULE_NOT_FOUND' });
      }
      return { render: (node) => renderNode(node, cur()), __esModule: true };
    }
    if (n === 'timers') return simTimers;
    if (n === 'timers/promises') return simTimersPromises;
    if (n === 'crypto') return simCrypto();
    if (n === 'perf_hooks') return { performance: globalThis.performance };
    return require(name);
  };
  script.runInThisContext()(module.exports, req, module, opts.edge === 'bare' ? {} : opts.edge ? undefined : process);
  return module.exports;
}
export { real };
