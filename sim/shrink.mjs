// Delta debugging on plans: fewer tasks, fewer steps, fewer faults, smaller
// arguments, as long as the same kind of violation still occurs.
import { real } from './core.mjs';
import { execute } from './world.mjs';

export async function minimise(plan, prop, kind, { maxTries = 1500, maxMs = 40_000 } = {}) {
  const t0 = real.perfNow();
  let tries = 0;
  const fails = async (p) => {
    if (tries++ > maxTries || real.perfNow() - t0 > maxMs) return null;
    try {
      const w = await execute(p, prop);
      return w.violations.some((v) => v.kind === kind) ? w : null;
    } catch {
      return null;
    }
  };
  // From here on the schedule is data: decisions come from the trace, and any
  // decision the trace lacks is the benign default.
  let cur = structuredClone(plan);
  cur.frozen = true;
  if (!(await fails(structuredClone(cur)))) return plan;
  const attempt = async (mut) => {
    const p = structuredClone(cur);
    if (mut(p) === false) return false;
    if (await fails(structuredClone(p))) {
      cur = p;
      return true;
    }
    return false;
  };
  if (cur.dict) await attempt((p) => { delete p.dict; });
  let progress = true;
  while (progress && tries < maxTries && real.perfNow() - t0 < maxMs) {
    progress = false;
    for (let i = cur.tasks.length - 1; i >= 0; i--) if (cur.tasks.length > 1 && (await attempt((p) => { p.tasks.splice(i, 1); }))) progress = true;
    for (let t = 0; t < cur.tasks.length; t++) {
      for (let size = cur.tasks[t].steps.length; size >= 1; size = Math.floor(size / 2)) {
        for (let i = cur.tasks[t].steps.length - size; i >= 0; i--) {
          if (cur.tasks[t].steps.length <= size && cur.tasks.length === 1) continue;
          if (await attempt((p) => { if (p.tasks[t].steps.length < i + size) return false; p.tasks[t].steps.splice(i, size); })) progress = true;
        }
      }
    }
    for (const k of Object.keys(cur.trace)) {
      if (!(k in cur.trace)) continue;
      if (await attempt((p) => { delete p.trace[k]; })) { progress = true; continue; }
      const d = cur.trace[k];
      if (d && typeof d === 'object') for (const f of Object.keys(d)) {
        const simple = { up: 1, down: 1, gap: 0, hdr: 0, cuts: [] }[f];
        if (simple !== undefined && JSON.stringify(d[f]) !== JSON.stringify(simple)) if (await attempt((p) => { p.trace[k][f] = simple; })) progress = true;
      }
    }
    for (const k of ['resets', 'partitions']) if (cur.config.net?.[k]) if (await attempt((p) => { delete p.config.net[k]; })) progress = true;
    for (let t = 0; t < cur.tasks.length; t++) {
      if (cur.tasks[t].start) if (await attempt((p) => { p.tasks[t].start = 0; })) progress = true;
      for (let s = 0; s < cur.tasks[t].steps.length; s++) {
        for (const k of ['wait', 'bg']) if (cur.tasks[t].steps[s][k]) if (await attempt((p) => { delete p.tasks[t].steps[s][k]; })) progress = true;
        if (cur.tasks[t].steps[s].a && !prop.keepArgs) if (await shrinkArgs(() => cur.tasks[t].steps[s].a, (p) => p.tasks[t].steps[s].a, attempt)) progress = true;
      }
    }
    if (tries > maxTries) break;
  }
  return cur;
}

// Drops optional fields and list items, shortens long strings.
async function shrinkArgs(get, at, attempt) {
  let any = false;
  const walk = async (path) => {
    const dig = (root) => path.reduce((o, k) => o?.[k], root);
    const v = dig(get());
    if (typeof v === 'string' && v.length > 40) {
      if (await attempt((p) => { const parent = path.slice(0, -1).reduce((o, k) => o[k], at(p)); parent[path[path.length - 1]] = v.slice(0, 20); })) any = true;
      return;
    }
    if (v === null || typeof v !== 'object' || v.$) return;
    if (Array.isArray(v)) {
      for (let i = v.length - 1; i >= 0; i--) {
        if (path.length > 0 && v.length > 1 && (await attempt((p) => { path.reduce((o, k) => o[k], at(p)).splice(i, 1); }))) { any = true; await walk(path); return; }
      }
      for (let i = 0; i < v.length; i++) await walk([...path, i]);
      return;
    }
    for (const k of Object.keys(v)) {
      if (['to', 'from', 'subject', 'name', 'id', 'email', 'key', 'type', 'steps', 'connections', 'emailId'].includes(k)) { await walk([...path, k]); continue; }
      if (await attempt((p) => { delete path.reduce((o, x) => o[x], at(p))[k]; })) any = true;
      else await walk([...path, k]);
    }
  };
  await walk([]);
  return any;
}
