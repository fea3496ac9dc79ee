// A seed becomes a plan.
import { Rng } from './core.mjs';
import { choose, setDict } from './dict.mjs';
export function makePlan(prop, seed) {
  const r = new Rng(prop.id, seed, 'plan');
  const dict = choose(prop.id, seed);
  setDict(dict);
  return { v: 1, property: prop.id, seed, ...prop.gen(r, seed), ...(dict ? { dict } : {}), trace: {} };
}
