// Proves the framework works here: bundles the SDK from the working tree, runs
// one plan twice under the simulator and compares the two executions.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { install, Rng } from './core.mjs';
import { build, useBundle } from './sdk.mjs';
import { digestOf, execute } from './world.mjs';

const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const dir = path.join(root, '.build', `setup-${process.pid}`);
const file = path.join(dir, 'sdk.cjs');
try {
  await build(file);
  install();
  useBundle(file);
  const prop = (await import('./props/C01.mjs')).default;
  const plan = () => ({ v: 1, property: prop.id, seed: 42, ...prop.gen(new Rng(prop.id, 42, 'plan'), 42), trace: {} });
  const a = digestOf(await execute(plan(), prop));
  const b = digestOf(await execute(plan(), prop));
  if (a !== b) throw new Error(`not deterministic: ${a} ${b}`);
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  console.log(`simulator ready, seed 42 -> ${a}`);
} finally {
  fs.rmSync(dir, { recursive: true, force: true });
}
