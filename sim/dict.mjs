// Change-directed search. The literals of the program under test (strings,
// numbers, patterns, field names) are the values its branches ask for, so runs
// use some of them as data, as fuzzers do with a dictionary. Literals that the
// committed snapshot of the tree does not have, and the parts of the API whose
// files differ from it, get most of the weight. None of this enters a verdict:
// it only decides which values, sizes, delays and calls a seed tries.
//   node sim/dict.mjs --write     rewrites the snapshot
import fs from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { hashStr, Rng } from './core.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const SNAPSHOT = path.join(HERE, 'base-dict.json');
const require = createRequire(import.meta.url);

function typescript(repo) {
  for (const p of ['/opt/veriftools/node/node_modules/typescript', path.join(repo, 'node_modules/typescript')]) {
    try { return require(p); } catch {}
  }
  return null;
}
function sources(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) { if (!/^(__|test|mock|fixture)/.test(e.name)) sources(p, out); }
    else if (/\.tsx?$/.test(e.name) && !/\.(spec|test|d)\.tsx?$/.test(e.name) && !/test-utils|mock/.test(e.name)) out.push(p);
  }
  return out;
}

// {s, n, k, r}: how often each literal occurs; files: a hash of each file's
// code (types and comments aside) and what it imports.
export function extract(repo) {
  const ts = typescript(repo);
  const d = { s: {}, n: {}, k: {}, r: {}, files: {} };
  const root = path.join(repo, 'src');
  if (!ts || !fs.existsSync(root)) return d;
  const put = (o, v) => { o[v] = (Object.hasOwn(o, v) ? o[v] : 0) + 1; };
  for (const file of sources(root)) {
    const sf = ts.createSourceFile(file, fs.readFileSync(file, 'utf8'), ts.ScriptTarget.Latest, true);
    const rel = path.relative(root, file);
    const imports = [];
    const consts = new Map();
    let code = '';
    const fold = (n) => {
      if (ts.isParenthesizedExpression(n) || ts.isAsExpression(n)) return fold(n.expression);
      if (ts.isNumericLiteral(n)) return Number(n.text.replace(/_/g, ''));
      if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.MinusToken) { const v = fold(n.operand); return v === null ? null : -v; }
      if (ts.isIdentifier(n)) return consts.get(n.text) ?? null;
      if (ts.isBinaryExpression(n)) {
        const a = fold(n.left);
        const b = fold(n.right);
        if (a === null || b === null) return null;
        switch (n.operatorToken.kind) {
          case ts.SyntaxKind.AsteriskToken: return a * b;
          case ts.SyntaxKind.PlusToken: return a + b;
          case ts.SyntaxKind.MinusToken: return a - b;
          case ts.SyntaxKind.SlashToken: return a / b;
          case ts.SyntaxKind.AsteriskAsteriskToken: return a ** b;
          case ts.SyntaxKind.LessThanLessThanToken: return a << b;
        }
      }
      return null;
    };
    const str = (v) => { if (v.length && v.length <= 200) put(d.s, v); };
    const walk = (n) => {
      if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) {
        if (n.moduleSpecifier?.text?.startsWith('.')) imports.push(path.relative(root, path.resolve(path.dirname(file), n.moduleSpecifier.text)));
        return;
      }
      if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isTypeNode(n)) return;
      if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer) { const v = fold(n.initializer); if (v !== null) consts.set(n.name.text, v); }
      if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n) || ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n)) str(n.text);
      else if (ts.isRegularExpressionLiteral(n)) put(d.r, n.text);
      else if (ts.isNumericLiteral(n)) put(d.n, fold(n));
      else if (ts.isBinaryExpression(n)) { const v = fold(n); if (v !== null) put(d.n, v); }
      else if (ts.isPropertyAccessExpression(n)) put(d.k, n.name.text);
      else if ((ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) && n.name.text) put(d.k, n.name.text);
      else if (ts.isBindingElement(n) && ts.isObjectBindingPattern(n.parent)) { const m = n.propertyName ?? n.name; if (m.text) put(d.k, m.text); }
      if (!n.getChildCount(sf) || n.kind === ts.SyntaxKind.Identifier) code += ` ${n.getText(sf)}`;
      ts.forEachChild(n, walk);
      // operators and keywords are not children forEachChild visits
      code += `;${n.kind}`;
    };
    walk(sf);
    d.files[rel] = { h: hashStr(code).toString(36), imports };
  }
  return d;
}

// Which parts of the API a set of changed files can reach, by directory name.
function reach(d, changed) {
  const strip = (p) => p.replace(/\.tsx?$/, '').replace(/\/index$/, '');
  const importers = new Map();
  for (const [f, { imports }] of Object.entries(d.files)) for (const i of imports) { if (!importers.has(strip(i))) importers.set(strip(i), []); importers.get(strip(i)).push(f); }
  const seen = new Set();
  const todo = [...changed];
  while (todo.length) {
    const f = todo.pop();
    if (seen.has(f)) continue;
    seen.add(f);
    if (f === 'resend.ts' || f === 'index.ts') continue; // everybody's
    for (const g of importers.get(strip(f)) ?? []) todo.push(g);
  }
  const camel = (s) => s.replace(/-(\w)/g, (_, c) => c.toUpperCase());
  const parts = new Set();
  for (const f of seen) {
    const dirs = f.split('/').slice(0, -1).filter((x) => x !== 'interfaces');
    if (!dirs.length || ['common', 'utils'].includes(dirs[0])) continue;
    parts.add(dirs.map(camel).join('.'));
  }
  return parts.size && parts.size <= 4 ? [...parts].sort() : [];
}

const more = (a, b = {}) => Object.keys(a).filter((k) => a[k] > (Object.hasOwn(b, k) ? b[k] : 0));
export function makePools(repo) {
  const none = { s: [], n: [], k: [], r: [] };
  const out = { novel: none, base: none, focus: [] };
  try {
    const d = extract(repo);
    const old = JSON.parse(fs.readFileSync(SNAPSHOT, 'utf8'));
    out.base = { s: Object.keys(d.s), n: Object.keys(d.n).map(Number), k: Object.keys(d.k), r: Object.keys(d.r) };
    out.novel = { s: more(d.s, old.s), n: more(d.n, old.n).map(Number), k: more(d.k, old.k), r: more(d.r, old.r) };
    const changed = Object.keys(d.files).filter((f) => old.files[f]?.h !== d.files[f].h);
    out.focus = reach(d, changed);
  } catch { /* no dictionary: the generators' own values remain */ }
  return out;
}

// ------------------------------------------------------------------ patterns
// A string the pattern matches, more or less: bounds and look-arounds are ignored.
export function sample(re, r) {
  const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(re);
  if (!m) return null;
  const src = m[1];
  let i = 0;
  const CL = { d: '0123456789', w: 'abcXYZ019_', s: ' \t', D: 'a-', W: '-. @', S: 'aZ9-' };
  const esc = () => {
    const c = src[i++];
    if (CL[c]) return [...CL[c]];
    if (c === 'u' || c === 'x') { const h = /^\{?([0-9a-fA-F]{2,6})\}?/.exec(src.slice(i, i + (c === 'x' ? 2 : 8)))?.[0] ?? ''; const hex = c === 'u' && !h.startsWith('{') ? h.slice(0, 4) : h; i += hex.length; return [String.fromCodePoint(parseInt(hex.replace(/[{}]/g, ''), 16) || 97)]; }
    if (c === 'p' || c === 'P') { const h = /^\{[^}]*\}/.exec(src.slice(i))?.[0] ?? ''; i += h.length; return ['é', 'A', '東', '9']; }
    if ('bB'.includes(c)) return [''];
    return [{ n: '\n', r: '\r', t: '\t', 0: '\0', f: '\f', v: '\v' }[c] ?? c];
  };
  const cls = () => {
    const neg = src[i] === '^' ? (i++, true) : false;
    const set = [];
    while (i < src.length && src[i] !== ']') {
      let c = src[i] === '\\' ? (i++, esc()) : [src[i++]];
      if (src[i] === '-' && src[i + 1] !== ']' && c.length === 1 && i + 1 < src.length) {
        i++;
        const e = src[i] === '\\' ? (i++, esc()) : [src[i++]];
        const a = c[0].codePointAt(0);
        const b = e[0].codePointAt(0);
        c = [a, b, (a + b) >> 1, Math.min(b, a + 1)].filter((x) => x < 0xd800 || x > 0xdfff).map((x) => String.fromCodePoint(x));
      }
      set.push(...c);
    }
    i++;
    if (!neg) return set.length ? set : [''];
    return ['a', 'Z', '5', ' ', '-', 'é', '@', '\u0001'].filter((x) => !set.includes(x));
  };
  const alt = () => {
    const opts = [seq()];
    while (src[i] === '|') { i++; opts.push(seq()); }
    return r.pick(opts)();
  };
  const seq = () => {
    const parts = [];
    while (i < src.length && src[i] !== '|' && src[i] !== ')') {
      const c = src[i++];
      let atom;
      if (c === '(') {
        let look = false;
        if (src[i] === '?') {
          const g = /^\?(?::|=|!|<=|<!|<[^>]*>)/.exec(src.slice(i))?.[0] ?? '?';
          look = /^\?(=|!|<=|<!)$/.test(g);
          i += g.length;
        }
        const start = i;
        alt();
        const end = i;
        i++;
        atom = look ? () => '' : () => { const save = i; i = start; const v = alt(); i = save; return v; };
        void end;
      } else if (c === '[') { const set = cls(); atom = () => r.pick(set); }
      else if (c === '\\') { const set = esc(); atom = () => r.pick(set); }
      else if (c === '.') atom = () => r.pick(['x', '1', '.', 'é']);
      else if (c === '^' || c === '$') atom = () => '';
      else atom = () => c;
      let lo = 1;
      let hi = 1;
      const q = /^(?:[*+?]|\{\d+(?:,\d*)?\})/.exec(src.slice(i))?.[0];
      if (q) {
        i += q.length;
        if (src[i] === '?') i++;
        if (q === '*') [lo, hi] = [0, 4];
        else if (q === '+') [lo, hi] = [1, 4];
        else if (q === '?') [lo, hi] = [0, 1];
        else { const [a, b] = q.slice(1, -1).split(','); lo = Number(a); hi = b === undefined ? lo : b === '' ? lo + 4 : Number(b); }
        hi = Math.min(hi, 300);
        lo = Math.min(lo, hi);
      }
      parts.push(() => { let s = ''; for (let k = r.range(lo, hi); k > 0; k--) s += atom(); return s; });
    }
    return () => parts.map((p) => p()).join('');
  };
  try { return alt(); } catch { return null; }
}

// ------------------------------------------------------------------ per run
let pools = null;
export const usePools = (p) => { pools = p; };
// The values of the run in progress. Plans carry them, so that a replay has them.
export const D = { on: false, s: [], n: [], k: [] };
export function setDict(d) {
  D.on = !!d;
  D.s = d?.s ?? [];
  D.n = d?.n ?? [];
  D.k = d?.k ?? [];
}
// The part of the API this run is about, or null.
let focus = null;
export const inFocus = (names) => {
  if (!focus) return names;
  const some = names.filter((n) => focus.some((f) => n === f || n.startsWith(`${f}.`)));
  return some.length ? some : names;
};
export const focused = () => focus;

const wellFormed = (s) => s.isWellFormed?.() ?? true;
export function choose(id, seed) {
  const r = new Rng(id, seed, 'dict');
  focus = null;
  if (!pools) return null;
  const size = (p) => p.s.length + p.n.length + p.k.length + p.r.length;
  const fresh = size(pools.novel) > 0;
  if (pools.focus.length && r.chance(0.5)) focus = pools.focus;
  const from = r.weighted([[fresh ? pools.novel : null, fresh ? 55 : 0], [pools.base, fresh ? 10 : 20], [null, fresh ? 35 : 80]]);
  if (!from || !size(from)) return null;
  const d = { s: r.sample(from.s, 4), n: r.sample(from.n, 3), k: r.sample(from.k, 3) };
  for (const re of r.sample(from.r, 2)) for (let i = 0; i < 2; i++) { const x = sample(re, r); if (x && wellFormed(x)) d.s.push(x); }
  for (const n of d.n) if (n > 0 && n <= 0xffff && Number.isInteger(n) && (n < 0xd800 || n > 0xdfff) && r.chance(0.3)) d.s.push(String.fromCharCode(n));
  d.s = d.s.filter(wellFormed);
  // A variable of the environment that the program may look at.
  const caps = d.k.filter((k) => /^[A-Z][A-Z0-9_]{3,}$/.test(k) && !/^(RESEND_API_KEY|RESEND_BASE_URL|RESEND_USER_AGENT|NODE_ENV)$/.test(k));
  if (caps.length) d.env = Object.fromEntries(caps.map((k) => [k, r.pick(['1', 'true', '0', '', ...d.s.filter((x) => !x.includes('\0'))])]));
  return d;
}

// ------------------------------------------------------------------ values
const PRE = ['x', 'ab ', '7-', 'Re: ', '('];
const POST = ['x', ' z', '-7', '...', ')', '1'];
export function dstr(r, p, ok = () => true) {
  if (!D.on || !(D.s.length + D.k.length) || !r.chance(p)) return null;
  const base = D.s.length && (r.chance(0.8) || !D.k.length) ? r.pick(D.s) : r.pick(D.k);
  const k = r.int(12);
  const s = k < 5 ? base : k < 7 ? base + r.pick(POST) : k < 9 ? r.pick(PRE) + base : k === 9 ? base.toUpperCase() : k === 10 ? base.toLowerCase() : r.pick(PRE) + base + r.pick(POST);
  return wellFormed(s) && ok(s) ? s : null;
}
export function dnum(r, p, lo, hi) {
  if (!D.on || !D.n.length || !r.chance(p)) return null;
  const n = Math.trunc(r.pick(D.n)) + r.pick([0, 0, 1, 1, -1]);
  return n >= lo && n <= hi ? n : null;
}
// A time the program may be waiting for, in ms.
export function dtime(r, p, max = 2_592_000_000) {
  if (!D.on || !D.n.length || !r.chance(p)) return null;
  const n = r.pick(D.n) * r.pick([1, 1, 1000, 60_000]);
  return n > 0 && n <= max ? n + r.pick([0, 0.5, 1, -0.5]) : null;
}
export const TOKEN = /^[A-Za-z][A-Za-z0-9-]{0,60}$/;
export const PRINTABLE = /^[\x21-\x7e](?:[\x20-\x7e]{0,200}[\x21-\x7e])?$/;
export const PLAIN = /^[A-Za-z0-9_-]{1,80}$/;

if (process.argv[1] === fileURLToPath(import.meta.url) && process.argv.includes('--write')) {
  const d = extract(process.env.VERIF_REPO ?? '/repo');
  for (const f of Object.values(d.files)) delete f.imports;
  fs.writeFileSync(SNAPSHOT, `${JSON.stringify(d)}\n`);
  console.log(Object.entries(d).map(([k, v]) => `${k}: ${Object.keys(v).length}`).join(', '));
}
